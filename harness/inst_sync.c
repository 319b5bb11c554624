/* Inline functions of picotm-lib, compiled with the instrumentation of the library. */
#include "picotm/picotm-lib-spinlock.h"
#include "picotm/picotm-lib-ref.h"
int inst_sync(const char* op, struct picotm_spinlock* sl, struct picotm_shared_ref16* sr)
{
    switch (op[0] + op[1]) {
    case 'l' + 'o': picotm_spinlock_lock(sl); return 1;
    case 't' + 'r': return picotm_spinlock_try_lock(sl);
    case 'u' + 'n': picotm_spinlock_unlock(sl); return 1;
    case 'u' + 'p': return picotm_ref_up(sr);
    case 'd' + 'o': return picotm_ref_down(sr);
    default: return picotm_ref_count(sr);
    }
}
