# Runs at the end of the project's top CMakeLists.txt (same toolchain adaptation as the
# official build of this sandbox: no casarest, casacore 3.5).
set(_vf ${CMAKE_CURRENT_LIST_DIR})
get_target_property(_src meqnodes SOURCES)
list(REMOVE_ITEM _src src/UVBrick.cc)
set_property(TARGET meqnodes PROPERTY SOURCES ${_src})
target_sources(meqnodes PRIVATE ${_vf}/uvbrick_absent.c)
set_property(SOURCE ${CMAKE_SOURCE_DIR}/MeqNodes/src/CasaParmTable.cc TARGET_DIRECTORY meqnodes
  APPEND PROPERTY COMPILE_OPTIONS -UIMPLICIT_CTDS_32BIT -include ${_vf}/rownr.h)
set_property(TARGET wsrt_j2convert PROPERTY EXCLUDE_FROM_ALL TRUE)
set_property(TARGET addbitflagcol PROPERTY EXCLUDE_FROM_ALL TRUE)
set_property(TARGET addtiledmscol PROPERTY EXCLUDE_FROM_ALL TRUE)
# the verification harness
include(${_vf}/../harness/harness.cmake)
