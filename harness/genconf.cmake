# cmake -DREPO=.. -DOUT=.. -DREUSE=ON|OFF -P genconf.cmake : generates XAD/Config.hpp and XAD/Version.hpp
set(PROJECT_NAME XAD)
set(XAD_USE_STRONG_INLINE ${STRONG})
set(XAD_ALLOW_INT_CONVERSION ON)
set(XAD_TAPE_REUSE_SLOTS ${REUSE})
set(XAD_NO_THREADLOCAL OFF)
set(PROJECT_SOURCE_DIR ${REPO})
set(CMAKE_SOURCE_DIR ${REPO})
include(${REPO}/cmake/SetupVersion.cmake)
configure_file(${REPO}/src/XAD/Version.hpp.in ${OUT}/XAD/Version.hpp @ONLY)
configure_file(${REPO}/src/XAD/Config.hpp.in ${OUT}/XAD/Config.hpp @ONLY)
