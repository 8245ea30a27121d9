# Out of tree build of the library sources together with the simulator.
CXX     := g++-12
LD      := gcc-12
# The shipped flags, plus symbols; the library's own config.h when configured,
# else the committed copy of what configure produces here.
CFGINC  := $(if $(wildcard $(REPO)/config.h),,-I$(V)/sim/fallback)
BASE    := -std=c++14 -Os -g1 -DNDEBUG=1 -fno-threadsafe-statics -fno-enforce-eh-specs -fno-strict-aliasing $(CFGINC) -I$(REPO)
HXF     := -std=gnu++14 -O1 -g1 -fno-exceptions -fno-rtti -Wall
LIBSRC  := $(wildcard $(REPO)/*.cc)
SCNSRC  := $(wildcard $(V)/sim/scn/*.cc)
CORESRC := $(V)/sim/core/sim.cc $(V)/sim/core/simfs.cc
WRAPSYM := malloc calloc realloc free reallocarray strdup strndup aligned_alloc posix_memalign malloc_usable_size \
  open open64 openat creat close read write pread pwrite pread64 pwrite64 readv writev lseek lseek64 fsync fdatasync syncfs \
  fstat fstat64 ftruncate mmap mmap64 munmap msync ioctl fcntl fcntl64 dup isatty unlink \
  time clock_gettime gettimeofday rand random srand backtrace backtrace_symbols backtrace_symbols_fd
WRAP    := $(foreach s,$(WRAPSYM),-Wl,--wrap=$(s))

.PHONY: all io thr
all: io thr

# The optional configuration that demangles names: its one function, chosen at run time.
DEMANGLE := _ZN4ustl18demangle_type_nameEPcmPm
IOOBJ := $(patsubst $(REPO)/%.cc,$(OUT)/lib/%.o,$(LIBSRC)) $(patsubst $(V)/sim/scn/%.cc,$(OUT)/scn/%.o,$(SCNSRC)) $(patsubst $(V)/sim/core/%.cc,$(OUT)/core/%.o,$(CORESRC)) $(OUT)/dem/demangle.o
io: $(OUT)/simio
$(OUT)/simio: $(IOOBJ)
	$(LD) -o $@ $(IOOBJ) $(WRAP) -Wl,--wrap=$(DEMANGLE) -static-libgcc -lsupc++ -lm
$(OUT)/lib/%.o: $(REPO)/%.cc
	@mkdir -p $(@D)
	$(CXX) $(BASE) -MMD -MP -c -o $@ $<
$(OUT)/dem/demangle.o: $(REPO)/uexception.cc $(wildcard $(REPO)/*.h) $(V)/sim/core/demangle.h
	@mkdir -p $(@D)
	$(CXX) $(BASE) -include $(V)/sim/core/demangle.h -c -o $@.raw $<
	objcopy --redefine-sym $(DEMANGLE)=hx_demangle_full --weaken $@.raw $@
$(OUT)/scn/%.o: $(V)/sim/scn/%.cc
	@mkdir -p $(@D)
	$(CXX) $(BASE) -w -MMD -MP -c -o $@ $<
$(OUT)/core/%.o: $(V)/sim/core/%.cc
	@mkdir -p $(@D)
	$(CXX) $(HXF) -MMD -MP -c -o $@ $<
-include $(wildcard $(OUT)/*/*.d)

# Simulated threads: library and scenarios instrumented, the simulator is the runtime.
TSAN    := -fsanitize=thread -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memset -fno-builtin-memcmp -fno-builtin-strlen
THRWRAP := $(WRAP) $(foreach s,memcpy memmove memset memcmp strlen vsnprintf snprintf copy_n_fast copy_backward_fast fill_n8_fast fill_n16_fast fill_n32_fast rotate_fast __cxa_allocate_exception __cxa_demangle,-Wl,--wrap=$(s))
HIDE    := $(foreach s,memcpy memmove memset memcmp strlen vsnprintf snprintf,--redefine-sym $(s)=hx_$(s))
THRLIB  := $(patsubst $(REPO)/%.cc,$(OUT)/tlib/%.o,$(filter-out %/ualgobase.cc,$(LIBSRC)))
THRSCN  := $(patsubst $(V)/sim/thr/%.cc,$(OUT)/tscn/%.o,$(wildcard $(V)/sim/thr/scn_*.cc))
THRCORE := $(OUT)/tcore/sim.o $(OUT)/tcore/simfs.o $(OUT)/tcore/thr.o
# its contents are assembly, seen by the simulator at the calls
THRASM  := $(patsubst $(REPO)/%.cc,$(OUT)/tasm/%.o,$(wildcard $(REPO)/ualgobase.cc))
thr: $(OUT)/simthr
$(OUT)/simthr: $(THRLIB) $(THRSCN) $(THRCORE) $(THRASM)
	$(LD) -o $@ $^ $(THRWRAP) -static-libgcc -lsupc++ -lm
$(OUT)/tlib/%.o: $(REPO)/%.cc
	@mkdir -p $(@D)
	$(CXX) $(BASE) $(TSAN) -MMD -MP -c -o $@ $<
$(OUT)/tscn/%.o: $(V)/sim/thr/%.cc
	@mkdir -p $(@D)
	$(CXX) $(BASE) $(TSAN) -I$(V)/sim/scn -w -MMD -MP -c -o $@ $<
$(OUT)/tasm/%.o: $(OUT)/lib/%.o
	@mkdir -p $(@D)
	objcopy --rename-section .bss=ualgo_bss --rename-section .data=ualgo_data $< $@
$(OUT)/tcore/thr.o: $(V)/sim/thr/thr.cc
	@mkdir -p $(@D)
	$(CXX) $(HXF) -MMD -MP -MT $@ -c -o $@.raw $<
	objcopy $(HIDE) $@.raw $@
$(OUT)/tcore/%.o: $(OUT)/core/%.o
	@mkdir -p $(@D)
	objcopy $(HIDE) $< $@
