# Included right after project(Simox): sources that cannot be merged into unity files.
cmake_language(DEFER CALL _verif_no_unity)
function(_verif_no_unity)
  foreach(t BulletOpenGLSupport simox-qhull)
    if(TARGET ${t})
      set_target_properties(${t} PROPERTIES UNITY_BUILD OFF)
    endif()
  endforeach()
endfunction()
