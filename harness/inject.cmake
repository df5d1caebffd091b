# Included by every project() call (CMAKE_PROJECT_INCLUDE); the harness targets
# are added at the end of the top-level directory, once VISR's targets exist.
if( CMAKE_SOURCE_DIR STREQUAL CMAKE_CURRENT_SOURCE_DIR AND NOT VERIF_INJECTED )
  set( VERIF_INJECTED ON )
  set( VERIF_HARNESS_DIR "${CMAKE_CURRENT_LIST_DIR}" )
  cmake_language( EVAL CODE "cmake_language( DEFER DIRECTORY [[${CMAKE_SOURCE_DIR}]] CALL include [[${CMAKE_CURRENT_LIST_DIR}/targets.cmake]] )" )
endif()
