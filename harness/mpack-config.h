/* Configuration used when the harness compiles /repo's sources. All variation
 * comes from -D options chosen by vp/build.py. */
#ifndef MPACK_CONFIG_H
#define MPACK_CONFIG_H 1
#include <stddef.h>
#ifndef VH_NOMALLOC
  #ifdef __cplusplus
  extern "C" {
  #endif
  void* vh_malloc(size_t n);
  void* vh_realloc(void* p, size_t n);
  void vh_free(void* p);
  #ifdef __cplusplus
  }
  #endif
  #define MPACK_MALLOC vh_malloc
  #define MPACK_FREE vh_free
  #ifdef VH_REALLOC
    #define MPACK_REALLOC vh_realloc
  #endif
#endif
#ifdef VH_SMALL
  #define MPACK_TRACKING_INITIAL_CAPACITY 3
  #define MPACK_STACK_SIZE 33
  #define MPACK_BUFFER_SIZE 33
  #define MPACK_NODE_PAGE_SIZE 113
  #define MPACK_BUILDER_INTERNAL_STORAGE_SIZE (sizeof(mpack_builder_page_t) + \
            sizeof(mpack_build_t) + MPACK_WRITER_MINIMUM_BUFFER_SIZE + 40)
  #define MPACK_BUILDER_PAGE_SIZE (sizeof(mpack_builder_page_t) + \
            sizeof(mpack_build_t) + MPACK_WRITER_MINIMUM_BUFFER_SIZE + 80)
  #define MPACK_NODE_INITIAL_DEPTH 3
  #define MPACK_NODE_MAX_DEPTH_WITHOUT_MALLOC 5
#endif
#ifdef VH_MID
  #define MPACK_TRACKING_INITIAL_CAPACITY 2
  #define MPACK_STACK_SIZE 64
  #define MPACK_BUFFER_SIZE 70
  #define MPACK_NODE_PAGE_SIZE 200
  #define MPACK_BUILDER_INTERNAL_STORAGE_SIZE (sizeof(mpack_builder_page_t) + \
            sizeof(mpack_build_t) + MPACK_WRITER_MINIMUM_BUFFER_SIZE + 3)
  #define MPACK_BUILDER_PAGE_SIZE (sizeof(mpack_builder_page_t) + \
            sizeof(mpack_build_t) + MPACK_WRITER_MINIMUM_BUFFER_SIZE + 1)
  #define MPACK_NODE_INITIAL_DEPTH 2
  #define MPACK_NODE_MAX_DEPTH_WITHOUT_MALLOC 4
#endif
#endif
