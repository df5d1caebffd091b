verif_check( p01_kernels efl_static )
verif_check( p02_convolver rbbl_static efl_static )
verif_check( p03_crossfade rbbl_static efl_static )
verif_check( p04_delay rcl_static rrl_static pml_static rbbl_static visr_static efl_static )
verif_check( p05_gains rcl_static rrl_static pml_static rbbl_static visr_static efl_static )
verif_check( p06_filters rcl_static rrl_static pml_static rbbl_static visr_static efl_static )
verif_check( p07_tf rcl_static rrl_static pml_static rbbl_static visr_static efl_static )
verif_check( p08_flow rcl_static rrl_static pml_static rbbl_static visr_static efl_static )
verif_check( p10_params rcl_static rrl_static pml_static rbbl_static visr_static efl_static )
verif_check( p09_validate rcl_static rrl_static pml_static rbbl_static visr_static efl_static )
verif_check( p11_buffering rcl_static rrl_static pml_static rbbl_static visr_static efl_static )
verif_check( p12_objects rcl_static rrl_static pml_static objectmodel_static rbbl_static visr_static efl_static )
verif_check( p13_notation rcl_static rrl_static pml_static objectmodel_static rbbl_static visr_static efl_static )
verif_check( p14_filterdesign rcl_static rrl_static pml_static objectmodel_static rbbl_static visr_static efl_static )
verif_check( p15_matrices rcl_static rrl_static pml_static objectmodel_static rbbl_static visr_static efl_static )
verif_check( p16_geometry rcl_static rrl_static pml_static objectmodel_static rbbl_static visr_static efl_static )
verif_check( p17_arrays panning_static rcl_static rrl_static pml_static objectmodel_static rbbl_static visr_static efl_static )
verif_check( p18_panning panning_static rcl_static rrl_static pml_static objectmodel_static rbbl_static visr_static efl_static )
verif_check( p19_adaptive panning_static rcl_static rrl_static pml_static objectmodel_static rbbl_static visr_static efl_static )
verif_check( p20_scene panning_static rcl_static rrl_static pml_static objectmodel_static rbbl_static visr_static efl_static )
verif_check( p21_renderer signalflows_static reverbobject_static panningdsp_static panning_static rcl_static rrl_static pml_static objectmodel_static rbbl_static visr_static efl_static )
verif_check( p22_reverb signalflows_static reverbobject_static panningdsp_static panning_static rcl_static rrl_static pml_static objectmodel_static rbbl_static visr_static efl_static )
verif_check( p23_network signalflows_static reverbobject_static panningdsp_static panning_static rcl_static rrl_static pml_static objectmodel_static rbbl_static visr_static efl_static )
# the audio interface sources are compiled into the check, against stand-ins for the audio servers
verif_check( p28_soundcard rrl_static rbbl_static visr_static efl_static )
foreach( F audio_interface audio_interface_factory jack_interface portaudio_interface )
  target_sources( p28_soundcard PRIVATE "${CMAKE_SOURCE_DIR}/src/libaudiointerfaces/${F}.cpp" )
endforeach()
target_compile_definitions( p28_soundcard PRIVATE VISR_AUDIOINTERFACES_STATIC_LIBRARY VISR_AUDIOINTERFACES_JACK_SUPPORT VISR_AUDIOINTERFACES_PORTAUDIO_SUPPORT )
# the applications are compiled into the check (each main function renamed), to run on an audio interface of the check
verif_check( p29_apps signalflows_static reverbobject_static panningdsp_static panning_static rcl_static rrl_static pml_static objectmodel_static rbbl_static visr_static efl_static Boost::program_options Boost::filesystem SndFile::sndfile )
foreach( F libapputilities/options libaudiointerfaces/audio_interface libaudiointerfaces/audio_interface_factory libsignalflowspython/visr_renderer apps/feedthrough/options apps/feedthrough/signal_flow apps/matrix_convolver/options apps/matrix_convolver/init_filter_matrix apps/baseline_renderer/options )
  target_sources( p29_apps PRIVATE "${CMAKE_SOURCE_DIR}/src/${F}.cpp" )
endforeach()
foreach( APP feedthrough matrix_convolver baseline_renderer )
  target_sources( p29_apps PRIVATE "${CMAKE_SOURCE_DIR}/src/apps/${APP}/main.cpp" )
  set_source_files_properties( "${CMAKE_SOURCE_DIR}/src/apps/${APP}/main.cpp" PROPERTIES COMPILE_DEFINITIONS "main=${APP}_main" )
endforeach()
target_sources( p29_apps PRIVATE "${CMAKE_SOURCE_DIR}/src/apps/time_frequency_feedthrough/main.cpp" "${CMAKE_SOURCE_DIR}/src/apps/visr_renderer/main.cpp" "${CMAKE_SOURCE_DIR}/src/apps/visr_renderer/options.cpp" )
set_source_files_properties( "${CMAKE_SOURCE_DIR}/src/apps/time_frequency_feedthrough/main.cpp" PROPERTIES COMPILE_DEFINITIONS "main=tff_main" )
# its option class has the same name as that of the baseline renderer
set_source_files_properties( "${CMAKE_SOURCE_DIR}/src/apps/visr_renderer/main.cpp" PROPERTIES COMPILE_DEFINITIONS "main=visr_renderer_main;baseline_renderer=visr_renderer_app" )
set_source_files_properties( "${CMAKE_SOURCE_DIR}/src/apps/visr_renderer/options.cpp" PROPERTIES COMPILE_DEFINITIONS "baseline_renderer=visr_renderer_app" )
target_compile_definitions( p29_apps PRIVATE VISR_AUDIOINTERFACES_STATIC_LIBRARY VISR_APPUTILITIES_STATIC_LIBRARY VISR_SIGNALFLOWSPYTHON_STATIC_LIBRARY=1 )
verif_check( p30_values rcl_static rrl_static pml_static objectmodel_static rbbl_static visr_static efl_static )
verif_check( p34_transitions panningdsp_static rcl_static rrl_static pml_static rbbl_static visr_static efl_static )
verif_check( p35_utility rcl_static rrl_static pml_static objectmodel_static rbbl_static visr_static efl_static )
