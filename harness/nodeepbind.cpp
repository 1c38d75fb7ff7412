// CasADi opens its plugins with RTLD_DEEPBIND, which AddressSanitizer refuses
#include <dlfcn.h>
extern "C" void* dlopen(const char* f, int flag) {
	static void* (*real)(const char*, int) = (void* (*)(const char*, int))dlsym(RTLD_NEXT, "dlopen");
	return real(f, flag & ~RTLD_DEEPBIND);
}
