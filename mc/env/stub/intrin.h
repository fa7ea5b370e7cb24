void __cpuidex(int regs[4], int leaf, int subleaf);
