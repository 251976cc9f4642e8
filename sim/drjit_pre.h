/* Force-included into every translation unit of drjit-core in the simulator
   build: routes the spin-wait hint of src/lock.h to the scheduler. */
#if defined(__cplusplus)
#  include <cstdlib>
#  include <atomic>
#  include <immintrin.h>
extern "C" void sim_spin_pause(void);
#  define __builtin_ia32_pause() sim_spin_pause()
#endif
