#include <pthread.h>
static pthread_mutex_t l = PTHREAD_MUTEX_INITIALIZER;
int a(int x) { pthread_mutex_lock(&l); if (x == 3) return 1; pthread_mutex_unlock(&l); return 0; }
int b(int x) { if (x) pthread_mutex_lock(&l); pthread_mutex_unlock(&l); return 0; }
int c(int x) { if (x) pthread_mutex_lock(&l); if (x) pthread_mutex_unlock(&l); return 0; }
int d(int x) { pthread_mutex_lock(&l); pthread_mutex_destroy(&l); pthread_mutex_unlock(&l); return 0; }
