// Configuration used by the model checker (generated from cmake_config.h.in).
#define vt_feature_cmake_no_feature          0
#define vt_feature_cmake_bit_check_overflow  0
#define vt_feature_cmake_trace_enabled       0
#define vt_feature_cmake_trace_only          0
#define vt_feature_cmake_lblite              1
#define vt_feature_cmake_production          0
#define vt_feature_cmake_mpi_rdma            0
#define vt_feature_cmake_print_term_msgs     0
#define vt_feature_cmake_no_pool_alloc_env   0
#define vt_feature_cmake_memory_pool         1
#define vt_feature_cmake_priority_bits_level 3
#define vt_feature_cmake_priorities          1
#ifndef vt_feature_cmake_fcontext
#define vt_feature_cmake_fcontext            0
#endif
#define vt_feature_cmake_test_trace_on       0
#define vt_feature_cmake_mimalloc            0
#define vt_feature_cmake_mpi_access_guards   0
#define vt_feature_cmake_zoltan              0
#define vt_feature_cmake_ci_build            0
#define vt_feature_cmake_diagnostics         0
#define vt_feature_cmake_diagnostics_runtime 0
#define vt_feature_cmake_libfort             0
#define vt_feature_cmake_production_build    0
#define vt_feature_cmake_debug_verbose       0
#define vt_feature_cmake_rdma_tests          1
#define vt_feature_cmake_external_fmt        0
#define vt_feature_cmake_libunwind           0
#define vt_feature_cmake_tv                  0
#define vt_feature_cmake_perf                0

#define vt_detected_max_num_nodes 8

#define vt_quirked_trivially_copyable_on_msg
#define vt_quirked_serialize_method_detection

#define vt_has_malloc_h
/* #undef vt_has_malloc_malloc_h */
/* #undef vt_has_mach_mach_h */
/* #undef vt_has_mstats */
#define vt_has_popen
#define vt_has_pclose
#define vt_has_sbrk
#define vt_has_mallinfo
#define vt_has_mallinfo2
#define vt_has_getrusage
#define vt_has_sysinfo
/* #undef vt_has_mach_task_self */
#define vt_has_getpid
#define vt_has_sys_resource_h
#define vt_has_unistd_h
#define vt_has_inttypes_h
#define vt_has_sysconf
#define vt_has_execinfo_h

#if vt_feature_cmake_external_fmt
  #define INCLUDE_FMT_CORE <fmt/core.h>
  #define INCLUDE_FMT_FORMAT <fmt/format.h>
  #define INCLUDE_FMT_OSTREAM <fmt/ostream.h>

  #define VT_FMT_NAMESPACE_BEGIN namespace fmt {
  #define VT_FMT_NAMESPACE_END }
#else
  #define INCLUDE_FMT_CORE <fmt-vt/core.h>
  #define INCLUDE_FMT_FORMAT <fmt-vt/format.h>
  #define INCLUDE_FMT_OSTREAM <fmt-vt/ostream.h>

  #define VT_FMT_NAMESPACE_BEGIN namespace fmt { inline namespace vt {
  #define VT_FMT_NAMESPACE_END } }
#endif
