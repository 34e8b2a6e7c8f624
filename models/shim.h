#define gettid vp_hidden_gettid_decl
#include <unistd.h>
#undef gettid
// Cancellation cleanup handlers are kept by the environment model instead of the C++ unwinder.
#include <pthread.h>
#undef pthread_cleanup_push
#undef pthread_cleanup_pop
extern "C" void vpm_cleanup_push(void(*)(void*),void*); extern "C" void vpm_cleanup_pop(int);
#define pthread_cleanup_push(f,a) do { vpm_cleanup_push(f,a);
#define pthread_cleanup_pop(x) vpm_cleanup_pop(x); } while(0)
