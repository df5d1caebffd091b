set( VH "${VERIF_HARNESS_DIR}" )
add_library( pbt STATIC EXCLUDE_FROM_ALL "${VH}/pbt.cpp" )
target_include_directories( pbt PUBLIC "${VH}" )
# a C++ host of Python components
add_executable( p31_embedded EXCLUDE_FROM_ALL "${VH}/p31_embedded.cpp" )
foreach( F libapputilities/options libaudiointerfaces/audio_interface libaudiointerfaces/audio_interface_factory apps/python_runner/options apps/python_runner/main )
  target_sources( p31_embedded PRIVATE "${CMAKE_SOURCE_DIR}/src/${F}.cpp" )
endforeach()
set_source_files_properties( "${CMAKE_SOURCE_DIR}/src/apps/python_runner/main.cpp" PROPERTIES COMPILE_DEFINITIONS "main=python_runner_main" )
target_compile_definitions( p31_embedded PRIVATE VISR_AUDIOINTERFACES_STATIC_LIBRARY VISR_APPUTILITIES_STATIC_LIBRARY )
target_include_directories( p31_embedded PRIVATE "${CMAKE_SOURCE_DIR}/src" )
target_link_libraries( p31_embedded PRIVATE pbt pythoncomponents_shared pythonsupport_shared panning_shared rrl_shared pml_shared objectmodel_shared rbbl_shared visr_shared efl_shared pybind11::embed Boost::program_options Boost::filesystem )
set_target_properties( p31_embedded PROPERTIES RUNTIME_OUTPUT_DIRECTORY "${CMAKE_BINARY_DIR}/checks" )
