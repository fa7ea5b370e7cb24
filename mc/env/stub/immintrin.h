int _rdrand64_step(void *z);
int _rdseed64_step(void *z);
void _mm_pause(void);
