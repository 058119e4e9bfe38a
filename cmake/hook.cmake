get_filename_component(VF_DIR "${CMAKE_CURRENT_LIST_FILE}" DIRECTORY)
cmake_language(EVAL CODE "cmake_language(DEFER CALL include [[${VF_DIR}/post.cmake]])")
