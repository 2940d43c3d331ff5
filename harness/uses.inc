#ifdef U_aligned_data
ENTRY(aligned_data)
#endif
#ifdef U_array
ENTRY(array)
#endif
#ifdef U_array_view
ENTRY(array_view)
#endif
#ifdef U_container_concepts
ENTRY(container_concepts)
#endif
#ifdef U_container
ENTRY(container)
#endif
#ifdef U_container_policy
ENTRY(container_policy)
#endif
#ifdef U_heap
ENTRY(heap)
#endif
#ifdef U_icontainer
ENTRY(icontainer)
#endif
#ifdef U_linked_list
ENTRY(linked_list)
#endif
#ifdef U_pair
ENTRY(pair)
#endif
#ifdef U_spsc_queue
ENTRY(spsc_queue)
#endif
#ifdef U_tuple
ENTRY(tuple)
#endif
#ifdef U_find
ENTRY(find)
#endif
#ifdef U_reverse
ENTRY(reverse)
#endif
#ifdef U_has_single_bit
ENTRY(has_single_bit)
#endif
#ifdef U_arithmetic
ENTRY(arithmetic)
#endif
#ifdef U_concepts
ENTRY(concepts)
#endif
#ifdef U_constant_iterator
ENTRY(constant_iterator)
#endif
#ifdef U_different_from
ENTRY(different_from)
#endif
#ifdef U_bind
ENTRY(bind)
#endif
#ifdef U_delegate
ENTRY(delegate)
#endif
#ifdef U_scoped_delegate
ENTRY(scoped_delegate)
#endif
#ifdef U_const_iterator
ENTRY(const_iterator)
#endif
#ifdef U_iterator_traits
ENTRY(iterator_traits)
#endif
#ifdef U_reverse_iterator
ENTRY(reverse_iterator)
#endif
#ifdef U_is_initializer_list
ENTRY(is_initializer_list)
#endif
#ifdef U_is_scoped_enum
ENTRY(is_scoped_enum)
#endif
#ifdef U_forward_like
ENTRY(forward_like)
#endif
#ifdef U_to_unsigned
ENTRY(to_unsigned)
#endif
#ifdef U_platform
ENTRY(platform)
#endif
#ifdef U_linux_platform
ENTRY(linux_platform)
#endif
#ifdef U_shared_library
ENTRY(shared_library)
#endif
#ifdef U_setup
ENTRY(setup)
#endif
#ifdef U_architecture_detection
ENTRY(architecture_detection)
#endif
#ifdef U_compiler_detection
ENTRY(compiler_detection)
#endif
#ifdef U_platform_macros
ENTRY(platform_macros)
#endif
#ifdef U_linux_platform_macros
ENTRY(linux_platform_macros)
#endif
#ifdef U_simd_detection
ENTRY(simd_detection)
#endif
#ifdef U_constants
ENTRY(constants)
#endif
#ifdef U_vector
ENTRY(vector)
#endif
#ifdef U_vectors_functions
ENTRY(vectors_functions)
#endif
#ifdef U_geometry
ENTRY(geometry)
#endif
#ifdef U_vector2
ENTRY(vector2)
#endif
#ifdef U_vector3
ENTRY(vector3)
#endif
#ifdef U_vector4
ENTRY(vector4)
#endif
#ifdef U_matrix
ENTRY(matrix)
#endif
#ifdef U_matrices_functions
ENTRY(matrices_functions)
#endif
#ifdef U_matrix4x4
ENTRY(matrix4x4)
#endif
#ifdef U_perspective
ENTRY(perspective)
#endif
#ifdef U_transformation
ENTRY(transformation)
#endif
#ifdef U_quaternion
ENTRY(quaternion)
#endif
#ifdef U_glsl_mapping
ENTRY(glsl_mapping)
#endif
#ifdef U_math
ENTRY(math)
#endif
#ifdef U_scalar_functions
ENTRY(scalar_functions)
#endif
#ifdef U_trigonometry
ENTRY(trigonometry)
#endif
#ifdef U_destroy
ENTRY(destroy)
#endif
#ifdef U_uninitialized
ENTRY(uninitialized)
#endif
