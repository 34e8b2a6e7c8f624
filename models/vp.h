#pragma once
#include <stdint.h>
extern "C" {
#define NT __attribute__((nothrow))
NT uint64_t vp_sym(const char*,int bits); NT void vp_assume(int); NT void vp_assert(int,const char*); NT void vp_reach(const char*); NT void vp_fail(const char*); NT void vp_note(const char*,uint64_t); NT void vp_cap(const char*);
NT int vp_spawn(void(*)(void*),void*); NT int vp_spawn_proc(void(*)(void*),void*); NT int vp_run(); NT int vp_self(); NT int vp_proc(); NT void vp_visible(int); NT void vp_shared(void*); NT uint64_t vp_map(void*,uint64_t); NT int vp_unmap(uint64_t); NT int vp_mapped(const void*,uint64_t); NT void vp_guard(void*); NT int vp_status(int); NT void vp_crashable(int,int); NT void vp_crashcopy(void*,const void*,uint64_t); NT uint64_t vp_lastw(int,const void*); NT void vp_die(); NT void vp_merge(); NT void vp_model(int); NT void vp_only(int); NT uint64_t vp_conc(uint64_t); NT uint64_t vp_param(const char*,uint64_t);
}
