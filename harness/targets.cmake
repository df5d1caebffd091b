set( VH "${VERIF_HARNESS_DIR}" )
# vendored FFT: reads one entry past a constant table by design; not under test
foreach( T ffts_static ffts_shared )
  if( TARGET ${T} )
    target_compile_options( ${T} PRIVATE -fno-sanitize=address )
  endif()
endforeach()
add_library( pbt STATIC EXCLUDE_FROM_ALL "${VH}/pbt.cpp" )
target_include_directories( pbt PUBLIC "${VH}" )
add_custom_target( verif_all )
function( verif_check NAME )
  add_executable( ${NAME} EXCLUDE_FROM_ALL "${VH}/${NAME}.cpp" )
  target_link_libraries( ${NAME} PRIVATE pbt ${ARGN} )
  target_include_directories( ${NAME} PRIVATE "${CMAKE_SOURCE_DIR}/src" )
  set_target_properties( ${NAME} PROPERTIES RUNTIME_OUTPUT_DIRECTORY "${CMAKE_BINARY_DIR}/checks" )
  add_dependencies( verif_all ${NAME} )
endfunction()
include( "${VH}/checks.cmake" )
