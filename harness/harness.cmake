# Harness targets: built next to the project's own libraries from the same source tree.
get_target_property(_vt_inc meqserver-lib INCLUDE_DIRECTORIES)
get_target_property(_vt_opt meqserver-lib COMPILE_OPTIONS)
get_property(_vt_def DIRECTORY ${CMAKE_SOURCE_DIR}/MeqServer PROPERTY COMPILE_DEFINITIONS)
set(_vh ${CMAKE_CURRENT_LIST_DIR})
file(GLOB _vt_src CONFIGURE_DEPENDS ${_vh}/vt_*.cc)
add_library(vtimba MODULE ${_vt_src})
set_target_properties(vtimba PROPERTIES PREFIX "" OUTPUT_NAME vtimba
  LIBRARY_OUTPUT_DIRECTORY ${CMAKE_BINARY_DIR}/vharness)
target_include_directories(vtimba PRIVATE ${_vt_inc})
target_compile_definitions(vtimba PRIVATE ${_vt_def} HAVE_AIPSPP HAVE_QDBM USE_STD_COMPLEX USE_THREADS _GNU_SOURCE STRIP_CUDA MAKE_LOFAR_SYMBOLS_GLOBAL)
target_compile_options(vtimba PRIVATE -std=c++17 -Wno-deprecated -Wno-unknown-pragmas -O1)
target_link_libraries(vtimba PRIVATE meqserver-lib meqnodes meqmpi meq viscube appagent apputils octopython octopussy dmi timbase)
