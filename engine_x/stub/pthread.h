typedef unsigned long pthread_t;
