From d69f2c6332d238c807106bd700fb8e47b52c17ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:20 +0000
Subject: [PATCH 01/44] fix: order t8_face_to_edge_neighbor of the prism by
 face vertex

For each face vertex the entry must be the edge that is incident to that vertex and
not part of the face. The prism rows listed other edges.
---
 src/t8_eclass/t8_eclass.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_eclass/t8_eclass.h b/src/t8_eclass/t8_eclass.h
index 82f8369..07ca827 100644
--- a/src/t8_eclass/t8_eclass.h
+++ b/src/t8_eclass/t8_eclass.h
@@ -126,7 +126,7 @@ typedef enum t8_eclass {
   { { 2, 1 }, { 2, 0 }, { 1, 0 } },                                                                       /* triangle */  \
   { { 0, 1, 2, 3 }, { 0, 1, 2, 3 }, { 4, 5, 6, 7 }, { 4, 5, 6, 7 }, { 8, 9, 10, 11 }, { 8, 9, 10, 11 } }, /* hex */       \
   { { 0, 1, 2 }, { 0, 3, 4 }, { 1, 3, 5 }, { 2, 4, 5 } },                                                 /* tet */       \
-  { { 1, 2, 4, 5 }, { 0, 2, 3, 5 }, { 0, 1, 3, 4 }, { 6, 7, 8 }, { 6, 7, 8 } },                           /* prism */     \
+  { { 2, 1, 5, 4 }, { 2, 0, 5, 3 }, { 1, 0, 4, 3 }, { 8, 6, 7 }, { 8, 6, 7 } },                           /* prism */     \
   { { -1 } },                                                                                             /* pyramid */   \
 }
 /** Mapping of edge vertex to tree vertex for each eclass. */
-- 
2.43.0


From 6e2b3ddab8d0b0acdade744d8a5bc5231724f887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:20 +0000
Subject: [PATCH 02/44] fix: t8_dtet_parenttype_beyid_to_Iloc is the inverse of
 t8_dtet_index_to_bey_number

For parent types 1 and 3 the local indices of the Bey children 4 and 5 were swapped.
---
 .../t8_default/t8_default_tet/t8_dtet_connectivity.c          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_connectivity.c b/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_connectivity.c
index 2f854e8..dc33596 100644
--- a/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_connectivity.c
+++ b/src/t8_schemes/t8_default/t8_default_tet/t8_dtet_connectivity.c
@@ -82,9 +82,9 @@ const int t8_dtet_type_cid_to_beyid[6][8] = {
  * a Tet with type b and Bey child number id */
 const int t8_dtet_parenttype_beyid_to_Iloc[6][8] = { 
   { 0, 1, 4, 7, 2, 3, 6, 5 }, 
-  { 0, 1, 5, 7, 2, 3, 6, 4 }, 
+  { 0, 1, 5, 7, 3, 2, 6, 4 }, 
   { 0, 3, 4, 7, 1, 2, 6, 5 },
-  { 0, 1, 6, 7, 2, 3, 4, 5 }, 
+  { 0, 1, 6, 7, 3, 2, 4, 5 }, 
   { 0, 3, 5, 7, 1, 2, 4, 6 }, 
   { 0, 3, 6, 7, 2, 1, 4, 5 } 
 };
-- 
2.43.0


From 6e329bf7283bc50793618e145bc06a6fb137fcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:20 +0000
Subject: [PATCH 03/44] fix: a zero-dimensional element has one corner in
 t8_element_shape_max_num_corner

---
 src/t8_element/t8_element_shape.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_element/t8_element_shape.c b/src/t8_element/t8_element_shape.c
index acc64a4..d1e5b3b 100644
--- a/src/t8_element/t8_element_shape.c
+++ b/src/t8_element/t8_element_shape.c
@@ -22,7 +22,7 @@
 
 #include <t8_element/t8_element_shape.h>
 
-const int t8_element_shape_max_num_corner[T8_ECLASS_MAX_DIM + 1] = { 0, 2, 4, 8 };
+const int t8_element_shape_max_num_corner[T8_ECLASS_MAX_DIM + 1] = { 1, 2, 4, 8 };
 
 /** The number of codimension-one boundaries of an element class. */
 int
-- 
2.43.0


From f0e19ecd1f637927c305d06eae5863145b33a768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:01 +0000
Subject: [PATCH 04/44] fix: hand the user data pointer itself to the search
 object

The C interface stored the address of its own parameter, so the callbacks
received a pointer into a dead stack frame.
---
 src/t8_forest/t8_forest_search/t8_forest_search.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/t8_forest/t8_forest_search/t8_forest_search.cxx b/src/t8_forest/t8_forest_search/t8_forest_search.cxx
index 2a10108..b22d9b1 100644
--- a/src/t8_forest/t8_forest_search/t8_forest_search.cxx
+++ b/src/t8_forest/t8_forest_search/t8_forest_search.cxx
@@ -181,7 +181,7 @@ t8_forest_search_update_user_data (t8_forest_search_c_wrapper search, void *udat
 {
   T8_ASSERT (search != NULL);
   T8_ASSERT (udata != NULL);
-  search->cpp_search->update_user_data (&udata);
+  search->cpp_search->update_user_data (static_cast<void **> (udata));
 }
 
 void
@@ -240,7 +240,7 @@ t8_forest_search_with_queries_update_user_data (t8_forest_search_with_queries_c_
 {
   T8_ASSERT (search_with_queries != NULL);
   T8_ASSERT (udata != NULL);
-  search_with_queries->cpp_search->update_user_data (&udata);
+  search_with_queries->cpp_search->update_user_data (static_cast<void **> (udata));
 }
 
 void
@@ -349,7 +349,7 @@ t8_forest_search_with_batched_queries_update_user_data (
 {
   T8_ASSERT (search_with_queries != NULL);
   T8_ASSERT (udata != NULL);
-  search_with_queries->cpp_search->update_user_data (&udata);
+  search_with_queries->cpp_search->update_user_data (static_cast<void **> (udata));
 }
 void
 t8_forest_search_with_batched_queries_update_queries (
-- 
2.43.0


From 71d8eadafc8c43e037c1bd2f6452dd75c4864f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:27 +0000
Subject: [PATCH 05/44] fix: keep the send buffers of the
 partition-for-coarsening messages until the sends complete

mpi_Isend freed its buffer right after posting the nonblocking send.
---
 .../t8_forest_partition_for_coarsening.cxx      | 10 +++++++---
 src/t8_forest/t8_forest_pfc_message.hxx         | 17 +++++++++--------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/t8_forest/t8_forest_partition_for_coarsening.cxx b/src/t8_forest/t8_forest_partition_for_coarsening.cxx
index 986d81a..6ee51a8 100644
--- a/src/t8_forest/t8_forest_partition_for_coarsening.cxx
+++ b/src/t8_forest/t8_forest_partition_for_coarsening.cxx
@@ -112,10 +112,12 @@ get_relevant_process_range (const t8_gloidx_t *partition_old, const t8_procidx_t
  * \param[out]  requests  the MPI requests as std::vector
  *                          on input:  empty
  *                          on output: contains the send requests
+ * \param[out]  send_buffers the buffers that are sent, must be kept alive until all \a requests are completed
 */
 template <typename MessageType>
 static void
-t8_forest_pfc_send_loop_range (const t8_forest_t forest_from, std::vector<sc_MPI_Request> &requests)
+t8_forest_pfc_send_loop_range (const t8_forest_t forest_from, std::vector<sc_MPI_Request> &requests,
+                               std::vector<std::vector<char>> &send_buffers)
 {
   // Assertions: The forest must be committed and the request vector empty.
   T8_ASSERT (t8_forest_is_committed (forest_from));
@@ -142,7 +144,8 @@ t8_forest_pfc_send_loop_range (const t8_forest_t forest_from, std::vector<sc_MPI
 
     // Send the message (and obtain the associated requests).
     sc_MPI_Request request;
-    message.mpi_Isend (forest_from, request);
+    send_buffers.emplace_back ();
+    message.mpi_Isend (forest_from, request, send_buffers.back ());
 
     // Add to requests array
     requests.push_back (std::move (request));
@@ -383,7 +386,8 @@ t8_forest_pfc_correction_offsets (t8_forest_t forest)
 
     // Send requests to other processes.
     std::vector<sc_MPI_Request> requests;
-    t8_forest_pfc_send_loop_range<t8_forest_pfc_message> (forest_old, requests);
+    std::vector<std::vector<char>> send_buffers;
+    t8_forest_pfc_send_loop_range<t8_forest_pfc_message> (forest_old, requests, send_buffers);
 
     // Receive messages from other processes.
     std::vector<t8_forest_pfc_message> messages;
diff --git a/src/t8_forest/t8_forest_pfc_message.hxx b/src/t8_forest/t8_forest_pfc_message.hxx
index 9041e5d..8d4bd19 100644
--- a/src/t8_forest/t8_forest_pfc_message.hxx
+++ b/src/t8_forest/t8_forest_pfc_message.hxx
@@ -29,6 +29,7 @@
 #ifndef T8_FOREST_PFC_MESSAGE_H
 #define T8_FOREST_PFC_MESSAGE_H
 
+#include <vector>
 #include <t8.h>
 #include <t8_element/t8_element.h>
 #include <t8_forest/t8_forest.h>
@@ -144,25 +145,25 @@ struct t8_forest_pfc_message
   /**
    * Send the message using non-blocking MPI send.
    *
-   * \param[in]   forest  the forest (only used for forest->mpicomm)
-   * \param[out]  request the MPI send request
+   * \param[in]   forest      the forest (only used for forest->mpicomm)
+   * \param[out]  request     the MPI send request
+   * \param[out]  send_buffer the buffer that is sent. Must neither be modified nor destroyed before \a request is completed.
   */
   void
-  mpi_Isend (const t8_forest_t forest, sc_MPI_Request &request)
+  mpi_Isend (const t8_forest_t forest, sc_MPI_Request &request, std::vector<char> &send_buffer)
   {
     /* Allocate buffer */
-    int buffer_size = pack_size ();
-    char *send_buffer = T8_ALLOC (char, buffer_size);
+    const int buffer_size = pack_size ();
+    send_buffer.resize (buffer_size);
 
     /* Pack message to buffer */
     int position = 0;
-    pack (send_buffer, buffer_size, &position);
+    pack (send_buffer.data (), buffer_size, &position);
 
     /* Send buffer */
     const int mpiret
-      = sc_MPI_Isend (send_buffer, position, sc_MPI_PACKED, iproc, T8_MPI_PFC_TAG, forest->mpicomm, &request);
+      = sc_MPI_Isend (send_buffer.data (), position, sc_MPI_PACKED, iproc, T8_MPI_PFC_TAG, forest->mpicomm, &request);
     SC_CHECK_MPI (mpiret);
-    T8_FREE (send_buffer);
   }
 
   /**
-- 
2.43.0


From b37e57934608541ac2171465f33f72014f19c1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:42 +0000
Subject: [PATCH 06/44] fix: wait for the uniform bounds messages of t8_cmesh

The request vector was passed by value, so the Waitall of the caller saw no request
and the send buffer was destroyed while the sends were pending.
---
 src/t8_cmesh/t8_cmesh.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 27c7e7c..e369eb1 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -1781,7 +1781,7 @@ t8_cmesh_uniform_bounds_from_unpartioned (const t8_cmesh_t cmesh, const t8_gloid
 static void
 t8_cmesh_bounds_send_start_or_end (const t8_cmesh_t cmesh, const bool start_message, const bool proc_is_empty,
                                    const t8_locidx_t first_or_last_puretree_of_iproc, const int first_tree_shared_shift,
-                                   const t8_gloidx_t iproc, std::vector<sc_MPI_Request> send_requests,
+                                   const t8_gloidx_t iproc, std::vector<sc_MPI_Request> &send_requests,
                                    std::vector<t8_gloidx_t> &send_buffer, int *current_pos_in_send_buffer,
                                    const t8_gloidx_t first_or_last_element_in_tree_index_of_iproc,
                                    t8_gloidx_t *first_or_last_local_tree, [[maybe_unused]] int8_t *first_tree_shared,
-- 
2.43.0


From b10fd141472986981d5918a5df2466ddf7e18aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:49 +0000
Subject: [PATCH 07/44] fix: keep the global id of the first local tree in 64
 bits in the partition-for-coarsening helper

---
 src/t8_forest/t8_forest_pfc_helper.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_forest/t8_forest_pfc_helper.cxx b/src/t8_forest/t8_forest_pfc_helper.cxx
index 93b62f4..5dd890e 100644
--- a/src/t8_forest/t8_forest_pfc_helper.cxx
+++ b/src/t8_forest/t8_forest_pfc_helper.cxx
@@ -117,6 +117,6 @@ t8_forest_pfc_helper_index_in_tree_from_globalid (const t8_forest_t forest, cons
   T8_ASSERT (element == t8_forest_get_tree_leaf_element (tree, index_in_tree));
 
   // Compute global tree ID as the local one plus the process' first tree ID.
-  const t8_locidx_t first_local_tree_id = t8_forest_get_first_local_tree_id (forest);
+  const t8_gloidx_t first_local_tree_id = t8_forest_get_first_local_tree_id (forest);
   gtree_id = first_local_tree_id + ltree_id;
 }
-- 
2.43.0


From 232a7dfdd516c8db400a47e89a9579c77ac0f3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:09 +0000
Subject: [PATCH 08/44] fix: pass the 64-bit element id to the VTK cell writer

---
 src/t8_vtk/t8_vtk_writer.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_vtk/t8_vtk_writer.hxx b/src/t8_vtk/t8_vtk_writer.hxx
index d4c3355..b399b31 100644
--- a/src/t8_vtk/t8_vtk_writer.hxx
+++ b/src/t8_vtk/t8_vtk_writer.hxx
@@ -239,7 +239,7 @@ struct vtk_writer
  */
   void
   t8_grid_element_to_vtk_cell (const grid_t grid, const t8_element_t *element, const t8_locidx_t itree,
-                               const t8_gloidx_t offset, const bool is_ghost, const int elem_id, long int *point_id,
+                               const t8_gloidx_t offset, const bool is_ghost, const t8_gloidx_t elem_id, long int *point_id,
                                int *cellTypes, vtkSmartPointer<vtkMergePoints> points,
                                vtkSmartPointer<vtkCellArray> cellArray,
                                vtkSmartPointer<t8_vtk_gloidx_array_type_t> vtk_treeid,
-- 
2.43.0


From 9d29ac5f7083bd80c7bd99bdc8baf4965b9ff4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:09 +0000
Subject: [PATCH 09/44] fix: the Fortran binding of the global element count
 returns 64 bits

---
 .../t8_fortran_interface_mod.f90              | 744 +++++++++---------
 1 file changed, 372 insertions(+), 372 deletions(-)

diff --git a/api/t8_fortran_interface/t8_fortran_interface_mod.f90 b/api/t8_fortran_interface/t8_fortran_interface_mod.f90
index d390cfa..7fea694 100644
--- a/api/t8_fortran_interface/t8_fortran_interface_mod.f90
+++ b/api/t8_fortran_interface/t8_fortran_interface_mod.f90
@@ -1,372 +1,372 @@
-!! This file is part of t8code.
-!! t8code is a C library to manage a collection (a forest) of multiple
-!! connected adaptive space-trees of general element classes in parallel.
-!!
-!! Copyright (C) 2024 the developers
-!!
-!! t8code is free software; you can redistribute it and/or modify
-!! it under the terms of the GNU General Public License as published by
-!! the Free Software Foundation; either version 2 of the License, or
-!! (at your option) any later version.
-!!
-!! t8code is distributed in the hope that it will be useful,
-!! but WITHOUT ANY WARRANTY; without even the implied warranty of
-!! MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-!! GNU General Public License for more details.
-!!
-!! You should have received a copy of the GNU General Public License
-!! along with t8code; if not, write to the Free Software Foundation, Inc.,
-!! 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301, USA.
-
-!! This file contains the module with t8code's Fortran interface.
-module t8_fortran_interface_mod
-      use, intrinsic :: iso_c_binding
-
-      !!! interface for t8_fortran_MPI_Comm_new
-      !!! Given a fortran MPI Communicator, converts it into C and
-      !!! returns a pointer to the C MPI communicator.
-      !!! This function allocates memory that needs to be freed with
-      !!! t8_fortran_mpi_comm_delete_f
-      !!!
-      !!! Code modified from: https://stackoverflow.com/questions/42530620/how-to-pass-mpi-communicator-handle-from-fortran-to-c-using-iso-c-binding
-      interface
-          type (C_PTR) function t8_fortran_mpi_comm_new_f (FCOMM)         &
-                        bind(C, NAME='t8_fortran_MPI_Comm_new')
-              use, intrinsic :: iso_c_binding, only: c_int, c_ptr
-              implicit none
-              integer (c_int), value :: Fcomm
-          end function t8_fortran_mpi_comm_new_f
-      end interface
-
-      !!! Free memory of a C MPI communicator pointer that was
-      !!! allocated using t8_fortran_mpi_comm_new_f
-      interface
-          subroutine t8_fortran_mpi_comm_delete_f (Ccomm)         &
-                        bind(C, NAME='t8_fortran_MPI_Comm_delete')
-              use, intrinsic :: iso_c_binding, only: c_ptr
-              implicit none
-              type (c_ptr), value :: Ccomm
-          end subroutine t8_fortran_mpi_comm_delete_f
-      end interface
-
-      !!! Initialize sc and t8code with a given C MPI Communicator
-      interface
-            subroutine t8_fortran_init_all_f (Ccomm)         &
-                        bind(C, NAME='t8_fortran_init_all')
-            use, intrinsic :: iso_c_binding, only: c_ptr
-            implicit none
-            type (c_ptr), value :: Ccomm
-            end subroutine t8_fortran_init_all_f
-      end interface
-
-      !!! Initialize sc and t8code with a given C MPI Communicator
-      interface
-            subroutine t8_fortran_init_all_noMPI_f ()         &
-                        bind(C, NAME='t8_fortran_init_all_noMPI')
-            end subroutine t8_fortran_init_all_noMPI_f
-      end interface
-
-      interface
-            type (c_ptr) function t8_cmesh_new_periodic_tri_f (Ccomm) &
-                                    bind (c, name = 't8_cmesh_new_periodic_tri_wrap')
-                  use, intrinsic :: iso_c_binding, only: c_ptr
-                  implicit none
-                  type (c_ptr), value :: Ccomm
-            end function t8_cmesh_new_periodic_tri_f
-      end interface
-
-      interface
-            subroutine t8_cmesh_destroy_f (cmesh) &
-                                    bind (c, name = 't8_cmesh_destroy')
-                  use, intrinsic :: iso_c_binding, only: c_ptr
-                  implicit none
-                  type (c_ptr) :: cmesh
-            end subroutine t8_cmesh_destroy_f
-      end interface
-
-      interface
-            subroutine t8_fortran_cmesh_init_f (cmesh) &
-                                    bind (c, name = 't8_cmesh_init')
-                  use, intrinsic :: iso_c_binding, only: c_ptr
-                  implicit none
-                  type (c_ptr) :: cmesh
-            end subroutine t8_fortran_cmesh_init_f
-      end interface
-
-      interface
-            type (c_ptr) function t8_fortran_geometry_linear_new_f (dimension) &
-                                    bind (c, name = 't8_geometry_linear_new')
-                  use, intrinsic :: iso_c_binding, only: c_int, c_ptr
-                  implicit none
-                  integer (c_int), value :: dimension
-            end function t8_fortran_geometry_linear_new_f
-      end interface
-
-      interface
-            subroutine t8_fortran_cmesh_register_geometry_f (cmesh, geometry) &
-                                    bind (c, name = 't8_cmesh_register_geometry')
-                  use, intrinsic :: iso_c_binding, only: c_ptr
-                  implicit none
-                  type (c_ptr), value :: cmesh
-                  type (c_ptr), value :: geometry
-            end subroutine t8_fortran_cmesh_register_geometry_f
-      end interface
-
-      interface
-            subroutine t8_fortran_cmesh_set_tree_class_f (cmesh, gtree_id, tree_class) &
-                                    bind (c, name = 't8_cmesh_set_tree_class')
-                  use, intrinsic :: iso_c_binding, only: c_ptr, c_int64_t, c_int
-                  implicit none
-                  type (c_ptr), value :: cmesh
-                  integer (c_int64_t), value :: gtree_id
-                  integer (c_int), value :: tree_class
-            end subroutine t8_fortran_cmesh_set_tree_class_f
-      end interface
-
-      interface
-            subroutine t8_fortran_cmesh_set_tree_vertices_f (cmesh, gtree_id, vertices, num_vertices) &
-                                    bind (c, name = 't8_cmesh_set_tree_vertices')
-                  use, intrinsic :: iso_c_binding, only: c_ptr, c_int, c_int64_t
-                  implicit none
-                  type (c_ptr), value :: cmesh
-                  integer (c_int64_t), value :: gtree_id
-                  type(c_ptr),value :: vertices
-                  integer (c_int), value :: num_vertices
-            end subroutine t8_fortran_cmesh_set_tree_vertices_f
-      end interface
-
-      interface
-            subroutine t8_fortran_cmesh_set_join_f (cmesh, gtree1, gtree2, face1, face2, orientation) &
-                                    bind (c, name = 't8_cmesh_set_join')
-                  use, intrinsic :: iso_c_binding, only: c_ptr, c_int, c_int64_t
-                  implicit none
-                  type (c_ptr), value :: cmesh
-                  integer (c_int64_t), value :: gtree1
-                  integer (c_int64_t), value :: gtree2
-                  integer (c_int), value :: face1
-                  integer (c_int), value :: face2
-                  integer (c_int), value :: orientation
-            end subroutine t8_fortran_cmesh_set_join_f
-      end interface
-
-      interface
-            subroutine t8_fortran_cmesh_set_join_by_vertices_noConn_f (cmesh, ntrees, eclasses, vertices, &
-                 connectivity, do_both_directions) bind (c, name = 't8_cmesh_set_join_by_vertices')
-                  use, intrinsic :: iso_c_binding, only: c_ptr, c_int, c_int64_t
-                  implicit none
-                  type (c_ptr), value :: cmesh
-                  integer (c_int64_t), value :: ntrees
-                  type (c_ptr), value :: eclasses
-                  type (c_ptr), value :: vertices
-                  type (c_ptr), value :: connectivity
-                  integer (c_int), value :: do_both_directions
-            end subroutine t8_fortran_cmesh_set_join_by_vertices_noConn_f
-      end interface
-
-      interface
-            subroutine t8_fortran_cmesh_commit_f (cmesh, Ccom) &
-                                    bind (c, name = 't8_fortran_cmesh_commit')
-                  use, intrinsic :: iso_c_binding, only: c_ptr
-                  implicit none
-                  type (c_ptr), value :: cmesh
-                  type (c_ptr), value :: Ccom
-            end subroutine t8_fortran_cmesh_commit_f
-      end interface
-
-      interface
-            type (c_ptr) function t8_forest_new_uniform_default_f (cmesh, level, do_face_ghost, Ccomm) &
-                                    bind (c, name = 't8_forest_new_uniform_default')
-                  use, intrinsic :: iso_c_binding, only: c_ptr, c_int
-                  implicit none
-                  type (c_ptr), value :: cmesh
-                  integer (c_int), value :: level
-                  integer (c_int), value :: do_face_ghost
-                  type (c_ptr), value :: Ccomm
-            end function t8_forest_new_uniform_default_f
-      end interface
-
-      interface
-            subroutine t8_forest_unref_f (forest) &
-                                    bind (c, name = 't8_forest_unref')
-                  use, intrinsic :: iso_c_binding, only: c_ptr
-                  implicit none
-                  type (c_ptr) :: forest
-            end subroutine t8_forest_unref_f
-      end interface
-
-      interface
-            integer (c_int) function t8_forest_get_local_num_leaf_elements (forest) &
-                                    bind (c, name = 't8_forest_get_local_num_leaf_elements')
-                  use, intrinsic :: iso_c_binding, only: c_ptr, c_int
-                  implicit none
-                  type (c_ptr), value :: forest
-            end function t8_forest_get_local_num_leaf_elements
-      end interface
-
-      interface
-            integer (c_int) function t8_forest_get_global_num_elements (forest) &
-                                     bind (c, name = 't8_forest_get_global_num_leaf_elements')
-                  use, intrinsic :: iso_c_binding, only: c_ptr, c_int
-                  implicit none
-                  type (c_ptr), value :: forest
-            end function t8_forest_get_global_num_elements
-      end interface
-
-      interface
-            integer (c_int) function t8_forest_get_num_local_trees (forest) &
-                                    bind (c, name = 't8_forest_get_num_local_trees')
-                  use, intrinsic :: iso_c_binding, only: c_ptr, c_int
-                  implicit none
-                  type (c_ptr), value :: forest
-            end function t8_forest_get_num_local_trees
-      end interface
-
-      interface
-            integer (c_int) function t8_forest_get_tree_num_elements (forest, ltreeid) &
-                                    bind (c, name = 't8_forest_get_tree_num_leaf_elements')
-                  use, intrinsic :: iso_c_binding, only: c_ptr, c_int
-                  implicit none
-                  type (c_ptr), value :: forest
-                  integer (c_int), value :: ltreeid
-            end function t8_forest_get_tree_num_elements
-      end interface
-
-      interface
-            type (c_ptr) function t8_forest_get_element_in_tree (forest, ltreeid, leid_in_tree) &
-                                    bind (c, name = 't8_forest_get_leaf_element_in_tree')
-                  use, intrinsic :: iso_c_binding, only: c_ptr, c_int
-                  implicit none
-                  type (c_ptr), value :: forest
-                  integer (c_int), value :: ltreeid, leid_in_tree
-            end function t8_forest_get_element_in_tree
-      end interface
-
-      interface
-            subroutine t8_forest_element_from_ref_coords (forest, ltreeid, element, ref_coords, num_coords, coords_out) &
-                                    bind (c, name = 't8_forest_element_from_ref_coords')
-                  use, intrinsic :: iso_c_binding, only: c_ptr, c_int, c_double
-                  implicit none
-                  type (c_ptr), value :: forest, element
-                  integer (c_int), value :: ltreeid, num_coords
-                  real (c_double), dimension(3) :: ref_coords, coords_out
-            end subroutine t8_forest_element_from_ref_coords
-      end interface
-
-      interface
-            subroutine t8_global_productionf_noargs_f (string) &
-                                    bind (c, name = 't8_global_productionf_noargs')
-                  use, intrinsic :: iso_c_binding, only: c_char
-                  implicit none
-                  character (c_char) :: string
-            end subroutine t8_global_productionf_noargs_f
-      end interface
-
-      interface
-            subroutine t8_fortran_finalize_f () &
-                                    bind (c, name = 't8_fortran_finalize')
-                  implicit none
-            end subroutine t8_fortran_finalize_f
-      end interface
-
-      interface
-            function t8_fortran_adapt(forest, fortran_callback, recursive) result(new_forest) &
-                  bind (c, name = 't8_fortran_adapt_c')
-            import :: c_funptr, c_ptr, c_int
-            type(c_ptr), value :: forest
-            type(c_funptr), value :: fortran_callback
-            integer (c_int), value :: recursive
-            type (c_ptr) :: new_forest
-            end function t8_fortran_adapt
-      end interface
-
-      interface
-            function t8_fortran_adapt_by_coordinates_f (forest, recursive, callback) result(new_forest) &
-                                    bind (c, name = 't8_forest_adapt_by_coordinates')
-                  use, intrinsic :: iso_c_binding, only : c_ptr, c_int, c_funptr
-                  implicit none
-                  type (c_ptr), value :: forest
-                  integer (c_int), value :: recursive
-                  type(c_funptr), value :: callback
-                  type (c_ptr) :: new_forest
-            end function t8_fortran_adapt_by_coordinates_f
-      end interface
-
-      interface
-            subroutine t8_fortran_element_volume_f (forest, ltreeid, element) &
-                                    bind (c, name = 't8_forest_element_volume')
-                  use, intrinsic :: iso_c_binding, only: c_ptr, c_int
-                  implicit none
-                  type (c_ptr), value :: forest
-                  integer (c_int), value :: ltreeid
-                  type (c_ptr), value :: element
-            end subroutine t8_fortran_element_volume_f
-      end interface
-
-contains
-
-      ! This function wraps t8_forest_write_vtk, passing back an error flag instead of true/false, so non-zero means
-      ! fail, zero success.
-      function t8_forest_write_vtk_f(forest, fileprefix) result(ierror)
-            implicit none
-            type (c_ptr), value :: forest
-            character (c_char) :: fileprefix
-            integer (c_int) :: ierror
-            integer (c_int)  :: retValue
-
-            ! Local binding to C function t8_forest_write_vtk.
-            interface
-                  integer (c_int) function t8_forest_write_vtk_c (forest, fileprefix) &
-                                          bind (c, name = 't8_forest_write_vtk')
-                        use, intrinsic :: iso_c_binding, only: c_ptr, c_int, c_char, c_double
-                        implicit none
-                        type (c_ptr), value :: forest
-                        character (c_char) :: fileprefix
-                  end function t8_forest_write_vtk_c
-            end interface
-
-            ! Call c function.
-            retValue = t8_forest_write_vtk_c(forest, fileprefix)
-
-            ! Convert return value of C function to the error flag returned by the Fortran function.
-            if( retValue.eq.0) then
-                  ierror = 1
-            else
-                  ierror = 0
-            end if
-
-      end function t8_forest_write_vtk_f
-
-      ! This function wraps t8_cmesh_vtk_write_file, passing back an error flag instead of true/false, so non-zero means
-      ! fail, zero success.
-      function t8_cmesh_vtk_write_file_f(cmesh, fileprefix) result(ierror)
-            use, intrinsic :: iso_c_binding, only: c_ptr, c_int, c_char, c_double
-            implicit none
-            type (c_ptr), value :: cmesh
-            character (c_char) :: fileprefix
-            integer (c_int) :: ierror
-            integer (c_int)  :: retValue
-
-            ! Local binding to C function t8_cmesh_vtk_write_file.
-            interface
-                  integer (c_int) function t8_cmesh_vtk_write_file_c (cmesh, fileprefix) &
-                                          bind (c, name = 't8_cmesh_vtk_write_file')
-                        use, intrinsic :: iso_c_binding, only: c_ptr, c_int, c_char, c_double
-                        implicit none
-                        type (c_ptr), value :: cmesh
-                        character (c_char) :: fileprefix
-                  end function t8_cmesh_vtk_write_file_c
-            end interface
-
-            ! Call c function.
-            retValue = t8_cmesh_vtk_write_file_c(cmesh, fileprefix)
-
-            ! Convert return value of C function to the error flag returned by the Fortran function.
-            if( retValue.eq.0) then
-                  ierror = 1
-            else
-                  ierror = 0
-            end if
-
-      end function t8_cmesh_vtk_write_file_f
-
-end module t8_fortran_interface_mod
+!! This file is part of t8code.
+!! t8code is a C library to manage a collection (a forest) of multiple
+!! connected adaptive space-trees of general element classes in parallel.
+!!
+!! Copyright (C) 2024 the developers
+!!
+!! t8code is free software; you can redistribute it and/or modify
+!! it under the terms of the GNU General Public License as published by
+!! the Free Software Foundation; either version 2 of the License, or
+!! (at your option) any later version.
+!!
+!! t8code is distributed in the hope that it will be useful,
+!! but WITHOUT ANY WARRANTY; without even the implied warranty of
+!! MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+!! GNU General Public License for more details.
+!!
+!! You should have received a copy of the GNU General Public License
+!! along with t8code; if not, write to the Free Software Foundation, Inc.,
+!! 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301, USA.
+
+!! This file contains the module with t8code's Fortran interface.
+module t8_fortran_interface_mod
+      use, intrinsic :: iso_c_binding
+
+      !!! interface for t8_fortran_MPI_Comm_new
+      !!! Given a fortran MPI Communicator, converts it into C and
+      !!! returns a pointer to the C MPI communicator.
+      !!! This function allocates memory that needs to be freed with
+      !!! t8_fortran_mpi_comm_delete_f
+      !!!
+      !!! Code modified from: https://stackoverflow.com/questions/42530620/how-to-pass-mpi-communicator-handle-from-fortran-to-c-using-iso-c-binding
+      interface
+          type (C_PTR) function t8_fortran_mpi_comm_new_f (FCOMM)         &
+                        bind(C, NAME='t8_fortran_MPI_Comm_new')
+              use, intrinsic :: iso_c_binding, only: c_int, c_ptr
+              implicit none
+              integer (c_int), value :: Fcomm
+          end function t8_fortran_mpi_comm_new_f
+      end interface
+
+      !!! Free memory of a C MPI communicator pointer that was
+      !!! allocated using t8_fortran_mpi_comm_new_f
+      interface
+          subroutine t8_fortran_mpi_comm_delete_f (Ccomm)         &
+                        bind(C, NAME='t8_fortran_MPI_Comm_delete')
+              use, intrinsic :: iso_c_binding, only: c_ptr
+              implicit none
+              type (c_ptr), value :: Ccomm
+          end subroutine t8_fortran_mpi_comm_delete_f
+      end interface
+
+      !!! Initialize sc and t8code with a given C MPI Communicator
+      interface
+            subroutine t8_fortran_init_all_f (Ccomm)         &
+                        bind(C, NAME='t8_fortran_init_all')
+            use, intrinsic :: iso_c_binding, only: c_ptr
+            implicit none
+            type (c_ptr), value :: Ccomm
+            end subroutine t8_fortran_init_all_f
+      end interface
+
+      !!! Initialize sc and t8code with a given C MPI Communicator
+      interface
+            subroutine t8_fortran_init_all_noMPI_f ()         &
+                        bind(C, NAME='t8_fortran_init_all_noMPI')
+            end subroutine t8_fortran_init_all_noMPI_f
+      end interface
+
+      interface
+            type (c_ptr) function t8_cmesh_new_periodic_tri_f (Ccomm) &
+                                    bind (c, name = 't8_cmesh_new_periodic_tri_wrap')
+                  use, intrinsic :: iso_c_binding, only: c_ptr
+                  implicit none
+                  type (c_ptr), value :: Ccomm
+            end function t8_cmesh_new_periodic_tri_f
+      end interface
+
+      interface
+            subroutine t8_cmesh_destroy_f (cmesh) &
+                                    bind (c, name = 't8_cmesh_destroy')
+                  use, intrinsic :: iso_c_binding, only: c_ptr
+                  implicit none
+                  type (c_ptr) :: cmesh
+            end subroutine t8_cmesh_destroy_f
+      end interface
+
+      interface
+            subroutine t8_fortran_cmesh_init_f (cmesh) &
+                                    bind (c, name = 't8_cmesh_init')
+                  use, intrinsic :: iso_c_binding, only: c_ptr
+                  implicit none
+                  type (c_ptr) :: cmesh
+            end subroutine t8_fortran_cmesh_init_f
+      end interface
+
+      interface
+            type (c_ptr) function t8_fortran_geometry_linear_new_f (dimension) &
+                                    bind (c, name = 't8_geometry_linear_new')
+                  use, intrinsic :: iso_c_binding, only: c_int, c_ptr
+                  implicit none
+                  integer (c_int), value :: dimension
+            end function t8_fortran_geometry_linear_new_f
+      end interface
+
+      interface
+            subroutine t8_fortran_cmesh_register_geometry_f (cmesh, geometry) &
+                                    bind (c, name = 't8_cmesh_register_geometry')
+                  use, intrinsic :: iso_c_binding, only: c_ptr
+                  implicit none
+                  type (c_ptr), value :: cmesh
+                  type (c_ptr), value :: geometry
+            end subroutine t8_fortran_cmesh_register_geometry_f
+      end interface
+
+      interface
+            subroutine t8_fortran_cmesh_set_tree_class_f (cmesh, gtree_id, tree_class) &
+                                    bind (c, name = 't8_cmesh_set_tree_class')
+                  use, intrinsic :: iso_c_binding, only: c_ptr, c_int64_t, c_int
+                  implicit none
+                  type (c_ptr), value :: cmesh
+                  integer (c_int64_t), value :: gtree_id
+                  integer (c_int), value :: tree_class
+            end subroutine t8_fortran_cmesh_set_tree_class_f
+      end interface
+
+      interface
+            subroutine t8_fortran_cmesh_set_tree_vertices_f (cmesh, gtree_id, vertices, num_vertices) &
+                                    bind (c, name = 't8_cmesh_set_tree_vertices')
+                  use, intrinsic :: iso_c_binding, only: c_ptr, c_int, c_int64_t
+                  implicit none
+                  type (c_ptr), value :: cmesh
+                  integer (c_int64_t), value :: gtree_id
+                  type(c_ptr),value :: vertices
+                  integer (c_int), value :: num_vertices
+            end subroutine t8_fortran_cmesh_set_tree_vertices_f
+      end interface
+
+      interface
+            subroutine t8_fortran_cmesh_set_join_f (cmesh, gtree1, gtree2, face1, face2, orientation) &
+                                    bind (c, name = 't8_cmesh_set_join')
+                  use, intrinsic :: iso_c_binding, only: c_ptr, c_int, c_int64_t
+                  implicit none
+                  type (c_ptr), value :: cmesh
+                  integer (c_int64_t), value :: gtree1
+                  integer (c_int64_t), value :: gtree2
+                  integer (c_int), value :: face1
+                  integer (c_int), value :: face2
+                  integer (c_int), value :: orientation
+            end subroutine t8_fortran_cmesh_set_join_f
+      end interface
+
+      interface
+            subroutine t8_fortran_cmesh_set_join_by_vertices_noConn_f (cmesh, ntrees, eclasses, vertices, &
+                 connectivity, do_both_directions) bind (c, name = 't8_cmesh_set_join_by_vertices')
+                  use, intrinsic :: iso_c_binding, only: c_ptr, c_int, c_int64_t
+                  implicit none
+                  type (c_ptr), value :: cmesh
+                  integer (c_int64_t), value :: ntrees
+                  type (c_ptr), value :: eclasses
+                  type (c_ptr), value :: vertices
+                  type (c_ptr), value :: connectivity
+                  integer (c_int), value :: do_both_directions
+            end subroutine t8_fortran_cmesh_set_join_by_vertices_noConn_f
+      end interface
+
+      interface
+            subroutine t8_fortran_cmesh_commit_f (cmesh, Ccom) &
+                                    bind (c, name = 't8_fortran_cmesh_commit')
+                  use, intrinsic :: iso_c_binding, only: c_ptr
+                  implicit none
+                  type (c_ptr), value :: cmesh
+                  type (c_ptr), value :: Ccom
+            end subroutine t8_fortran_cmesh_commit_f
+      end interface
+
+      interface
+            type (c_ptr) function t8_forest_new_uniform_default_f (cmesh, level, do_face_ghost, Ccomm) &
+                                    bind (c, name = 't8_forest_new_uniform_default')
+                  use, intrinsic :: iso_c_binding, only: c_ptr, c_int
+                  implicit none
+                  type (c_ptr), value :: cmesh
+                  integer (c_int), value :: level
+                  integer (c_int), value :: do_face_ghost
+                  type (c_ptr), value :: Ccomm
+            end function t8_forest_new_uniform_default_f
+      end interface
+
+      interface
+            subroutine t8_forest_unref_f (forest) &
+                                    bind (c, name = 't8_forest_unref')
+                  use, intrinsic :: iso_c_binding, only: c_ptr
+                  implicit none
+                  type (c_ptr) :: forest
+            end subroutine t8_forest_unref_f
+      end interface
+
+      interface
+            integer (c_int) function t8_forest_get_local_num_leaf_elements (forest) &
+                                    bind (c, name = 't8_forest_get_local_num_leaf_elements')
+                  use, intrinsic :: iso_c_binding, only: c_ptr, c_int
+                  implicit none
+                  type (c_ptr), value :: forest
+            end function t8_forest_get_local_num_leaf_elements
+      end interface
+
+      interface
+            integer (c_int64_t) function t8_forest_get_global_num_elements (forest) &
+                                     bind (c, name = 't8_forest_get_global_num_leaf_elements')
+                  use, intrinsic :: iso_c_binding, only: c_ptr, c_int64_t
+                  implicit none
+                  type (c_ptr), value :: forest
+            end function t8_forest_get_global_num_elements
+      end interface
+
+      interface
+            integer (c_int) function t8_forest_get_num_local_trees (forest) &
+                                    bind (c, name = 't8_forest_get_num_local_trees')
+                  use, intrinsic :: iso_c_binding, only: c_ptr, c_int
+                  implicit none
+                  type (c_ptr), value :: forest
+            end function t8_forest_get_num_local_trees
+      end interface
+
+      interface
+            integer (c_int) function t8_forest_get_tree_num_elements (forest, ltreeid) &
+                                    bind (c, name = 't8_forest_get_tree_num_leaf_elements')
+                  use, intrinsic :: iso_c_binding, only: c_ptr, c_int
+                  implicit none
+                  type (c_ptr), value :: forest
+                  integer (c_int), value :: ltreeid
+            end function t8_forest_get_tree_num_elements
+      end interface
+
+      interface
+            type (c_ptr) function t8_forest_get_element_in_tree (forest, ltreeid, leid_in_tree) &
+                                    bind (c, name = 't8_forest_get_leaf_element_in_tree')
+                  use, intrinsic :: iso_c_binding, only: c_ptr, c_int
+                  implicit none
+                  type (c_ptr), value :: forest
+                  integer (c_int), value :: ltreeid, leid_in_tree
+            end function t8_forest_get_element_in_tree
+      end interface
+
+      interface
+            subroutine t8_forest_element_from_ref_coords (forest, ltreeid, element, ref_coords, num_coords, coords_out) &
+                                    bind (c, name = 't8_forest_element_from_ref_coords')
+                  use, intrinsic :: iso_c_binding, only: c_ptr, c_int, c_double
+                  implicit none
+                  type (c_ptr), value :: forest, element
+                  integer (c_int), value :: ltreeid, num_coords
+                  real (c_double), dimension(3) :: ref_coords, coords_out
+            end subroutine t8_forest_element_from_ref_coords
+      end interface
+
+      interface
+            subroutine t8_global_productionf_noargs_f (string) &
+                                    bind (c, name = 't8_global_productionf_noargs')
+                  use, intrinsic :: iso_c_binding, only: c_char
+                  implicit none
+                  character (c_char) :: string
+            end subroutine t8_global_productionf_noargs_f
+      end interface
+
+      interface
+            subroutine t8_fortran_finalize_f () &
+                                    bind (c, name = 't8_fortran_finalize')
+                  implicit none
+            end subroutine t8_fortran_finalize_f
+      end interface
+
+      interface
+            function t8_fortran_adapt(forest, fortran_callback, recursive) result(new_forest) &
+                  bind (c, name = 't8_fortran_adapt_c')
+            import :: c_funptr, c_ptr, c_int
+            type(c_ptr), value :: forest
+            type(c_funptr), value :: fortran_callback
+            integer (c_int), value :: recursive
+            type (c_ptr) :: new_forest
+            end function t8_fortran_adapt
+      end interface
+
+      interface
+            function t8_fortran_adapt_by_coordinates_f (forest, recursive, callback) result(new_forest) &
+                                    bind (c, name = 't8_forest_adapt_by_coordinates')
+                  use, intrinsic :: iso_c_binding, only : c_ptr, c_int, c_funptr
+                  implicit none
+                  type (c_ptr), value :: forest
+                  integer (c_int), value :: recursive
+                  type(c_funptr), value :: callback
+                  type (c_ptr) :: new_forest
+            end function t8_fortran_adapt_by_coordinates_f
+      end interface
+
+      interface
+            subroutine t8_fortran_element_volume_f (forest, ltreeid, element) &
+                                    bind (c, name = 't8_forest_element_volume')
+                  use, intrinsic :: iso_c_binding, only: c_ptr, c_int
+                  implicit none
+                  type (c_ptr), value :: forest
+                  integer (c_int), value :: ltreeid
+                  type (c_ptr), value :: element
+            end subroutine t8_fortran_element_volume_f
+      end interface
+
+contains
+
+      ! This function wraps t8_forest_write_vtk, passing back an error flag instead of true/false, so non-zero means
+      ! fail, zero success.
+      function t8_forest_write_vtk_f(forest, fileprefix) result(ierror)
+            implicit none
+            type (c_ptr), value :: forest
+            character (c_char) :: fileprefix
+            integer (c_int) :: ierror
+            integer (c_int)  :: retValue
+
+            ! Local binding to C function t8_forest_write_vtk.
+            interface
+                  integer (c_int) function t8_forest_write_vtk_c (forest, fileprefix) &
+                                          bind (c, name = 't8_forest_write_vtk')
+                        use, intrinsic :: iso_c_binding, only: c_ptr, c_int, c_char, c_double
+                        implicit none
+                        type (c_ptr), value :: forest
+                        character (c_char) :: fileprefix
+                  end function t8_forest_write_vtk_c
+            end interface
+
+            ! Call c function.
+            retValue = t8_forest_write_vtk_c(forest, fileprefix)
+
+            ! Convert return value of C function to the error flag returned by the Fortran function.
+            if( retValue.eq.0) then
+                  ierror = 1
+            else
+                  ierror = 0
+            end if
+
+      end function t8_forest_write_vtk_f
+
+      ! This function wraps t8_cmesh_vtk_write_file, passing back an error flag instead of true/false, so non-zero means
+      ! fail, zero success.
+      function t8_cmesh_vtk_write_file_f(cmesh, fileprefix) result(ierror)
+            use, intrinsic :: iso_c_binding, only: c_ptr, c_int, c_char, c_double
+            implicit none
+            type (c_ptr), value :: cmesh
+            character (c_char) :: fileprefix
+            integer (c_int) :: ierror
+            integer (c_int)  :: retValue
+
+            ! Local binding to C function t8_cmesh_vtk_write_file.
+            interface
+                  integer (c_int) function t8_cmesh_vtk_write_file_c (cmesh, fileprefix) &
+                                          bind (c, name = 't8_cmesh_vtk_write_file')
+                        use, intrinsic :: iso_c_binding, only: c_ptr, c_int, c_char, c_double
+                        implicit none
+                        type (c_ptr), value :: cmesh
+                        character (c_char) :: fileprefix
+                  end function t8_cmesh_vtk_write_file_c
+            end interface
+
+            ! Call c function.
+            retValue = t8_cmesh_vtk_write_file_c(cmesh, fileprefix)
+
+            ! Convert return value of C function to the error flag returned by the Fortran function.
+            if( retValue.eq.0) then
+                  ierror = 1
+            else
+                  ierror = 0
+            end if
+
+      end function t8_cmesh_vtk_write_file_f
+
+end module t8_fortran_interface_mod
-- 
2.43.0


From c306546deab075551a87893e2f7a2f7bfcc7a26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:09 +0000
Subject: [PATCH 10/44] fix: the Fortran binding of the element volume returns
 the volume

---
 api/t8_fortran_interface/t8_fortran_interface_mod.f90 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/api/t8_fortran_interface/t8_fortran_interface_mod.f90 b/api/t8_fortran_interface/t8_fortran_interface_mod.f90
index 7fea694..eeceab3 100644
--- a/api/t8_fortran_interface/t8_fortran_interface_mod.f90
+++ b/api/t8_fortran_interface/t8_fortran_interface_mod.f90
@@ -292,14 +292,14 @@ module t8_fortran_interface_mod
       end interface
 
       interface
-            subroutine t8_fortran_element_volume_f (forest, ltreeid, element) &
+            real (c_double) function t8_fortran_element_volume_f (forest, ltreeid, element) &
                                     bind (c, name = 't8_forest_element_volume')
-                  use, intrinsic :: iso_c_binding, only: c_ptr, c_int
+                  use, intrinsic :: iso_c_binding, only: c_ptr, c_int, c_double
                   implicit none
                   type (c_ptr), value :: forest
                   integer (c_int), value :: ltreeid
                   type (c_ptr), value :: element
-            end subroutine t8_fortran_element_volume_f
+            end function t8_fortran_element_volume_f
       end interface
 
 contains
-- 
2.43.0


From 578201f45c3567f9d245828c01af5b12ec0cfffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:30 +0000
Subject: [PATCH 11/44] fix: pass the number of points of the Fortran reference
 coordinate mapping as int

---
 .../t8_fortran_interface.c                    |   8 +
 .../t8_fortran_interface.h                    | 150 ++++++++++--------
 .../t8_fortran_interface_mod.f90              |   2 +-
 3 files changed, 90 insertions(+), 70 deletions(-)

diff --git a/api/t8_fortran_interface/t8_fortran_interface.c b/api/t8_fortran_interface/t8_fortran_interface.c
index 18ee588..e74eed2 100644
--- a/api/t8_fortran_interface/t8_fortran_interface.c
+++ b/api/t8_fortran_interface/t8_fortran_interface.c
@@ -176,6 +176,14 @@ t8_forest_adapt_by_coordinates (t8_forest_t forest, int recursive, t8_fortran_ad
   return forest_new;
 }
 
+void
+t8_fortran_element_from_ref_coords (t8_forest_t forest, t8_locidx_t ltreeid, const t8_element_t *element,
+                                    const double *ref_coords, int num_coords, double *coords_out)
+{
+  T8_ASSERT (num_coords >= 0);
+  t8_forest_element_from_ref_coords (forest, ltreeid, element, ref_coords, (size_t) num_coords, coords_out);
+}
+
 void
 t8_global_productionf_noargs (const char *string)
 {
diff --git a/api/t8_fortran_interface/t8_fortran_interface.h b/api/t8_fortran_interface/t8_fortran_interface.h
index 8953b36..92737ac 100644
--- a/api/t8_fortran_interface/t8_fortran_interface.h
+++ b/api/t8_fortran_interface/t8_fortran_interface.h
@@ -1,32 +1,32 @@
-/*
-  This file is part of t8code.
-  t8code is a C library to manage a collection (a forest) of multiple
-  connected adaptive space-trees of general element classes in parallel.
-
-  Copyright (C) 2025 the developers
-
-  t8code is free software; you can redistribute it and/or modify
-  it under the terms of the GNU General Public License as published by
-  the Free Software Foundation; either version 2 of the License, or
-  (at your option) any later version.
-
-  t8code is distributed in the hope that it will be useful,
-  but WITHOUT ANY WARRANTY; without even the implied warranty of
-  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-  GNU General Public License for more details.
-
-  You should have received a copy of the GNU General Public License
-  along with t8code; if not, write to the Free Software Foundation, Inc.,
-  51 Franklin Street, Fifth Floor, Boston, MA 02110-1301, USA.
+/*
+  This file is part of t8code.
+  t8code is a C library to manage a collection (a forest) of multiple
+  connected adaptive space-trees of general element classes in parallel.
+
+  Copyright (C) 2025 the developers
+
+  t8code is free software; you can redistribute it and/or modify
+  it under the terms of the GNU General Public License as published by
+  the Free Software Foundation; either version 2 of the License, or
+  (at your option) any later version.
+
+  t8code is distributed in the hope that it will be useful,
+  but WITHOUT ANY WARRANTY; without even the implied warranty of
+  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+  GNU General Public License for more details.
+
+  You should have received a copy of the GNU General Public License
+  along with t8code; if not, write to the Free Software Foundation, Inc.,
+  51 Franklin Street, Fifth Floor, Boston, MA 02110-1301, USA.
 */
 
-/** \file t8_fortran_interface.h
- * In this file we provide a basic Fortran interface
- * for some functions of t8code.
- * Mostly, the C functions here are wrappers around more complex
- * t8code function.
- * We only export a minimum of the actual t8code functionality
- * to Fortran.
+/** \file t8_fortran_interface.h
+ * In this file we provide a basic Fortran interface
+ * for some functions of t8code.
+ * Mostly, the C functions here are wrappers around more complex
+ * t8code function.
+ * We only export a minimum of the actual t8code functionality
+ * to Fortran.
  */
 
 #ifndef T8_FORTRAN_INTERFACE_H
@@ -50,80 +50,92 @@ typedef
 
 T8_EXTERN_C_BEGIN ();
 
-/** Initialize sc and t8code with SC_MPI_COMM_WORLD communicator
- * and SC_LP_DEFAULT logging.
- * This call is equivalent to
- *   sc_init (comm, 1, 1, NULL, SC_LP_ESSENTIAL);
- *   t8_init (SC_LP_DEFAULT);
- * \param [in] comm The MPI communicator to use.
+/** Initialize sc and t8code with SC_MPI_COMM_WORLD communicator
+ * and SC_LP_DEFAULT logging.
+ * This call is equivalent to
+ *   sc_init (comm, 1, 1, NULL, SC_LP_ESSENTIAL);
+ *   t8_init (SC_LP_DEFAULT);
+ * \param [in] comm The MPI communicator to use.
  */
 void
 t8_fortran_init_all (sc_MPI_Comm *comm);
 
-/** Finalize sc. This wraps sc_finalize in order to have consistent
- * naming with t8_fortran_init_all.
+/** Finalize sc. This wraps sc_finalize in order to have consistent
+ * naming with t8_fortran_init_all.
  */
 void
 t8_fortran_finalize ();
 
-/** Commit cmesh. This wraps cmesh_commit in order to use the dereferenced communicator.
- * \param [in, out] cmesh     Cmesh to commit
- * \param [in] Ccomm          Pointer to a C MPI communicator.
+/** Commit cmesh. This wraps cmesh_commit in order to use the dereferenced communicator.
+ * \param [in, out] cmesh     Cmesh to commit
+ * \param [in] Ccomm          Pointer to a C MPI communicator.
 */
 void
 t8_fortran_cmesh_commit (t8_cmesh_t cmesh, sc_MPI_Comm *comm);
 
-/** Translate a fortran MPI communicator into a C MPI communicator
- * and return a pointer to it.
- * \param [in] Fcomm           Fortran MPI Communicator
- * \return                     Pointer to the corresponding C MPI communicator.
- * \note                       This function allocated memory for the new C MPI communicator.
- *                             Call \ref t8_fortran_MPI_Comm_delete to free this memory.
- * \note                       t8code needs to be configured with MPI support to be able to use
- *                             this function.
+/** Translate a fortran MPI communicator into a C MPI communicator
+ * and return a pointer to it.
+ * \param [in] Fcomm           Fortran MPI Communicator
+ * \return                     Pointer to the corresponding C MPI communicator.
+ * \note                       This function allocated memory for the new C MPI communicator.
+ *                             Call \ref t8_fortran_MPI_Comm_delete to free this memory.
+ * \note                       t8code needs to be configured with MPI support to be able to use
+ *                             this function.
  */
 sc_MPI_Comm *
 t8_fortran_MPI_Comm_new (MPI_T8_Fint Fcomm);
 
-/** Free the memory of a C MPI Communicator pointer that was created
- *  with \ref t8_fortran_MPI_Comm_new.
- * \param [in] Ccomm           Pointer to a C MPI communicator.
+/** Free the memory of a C MPI Communicator pointer that was created
+ *  with \ref t8_fortran_MPI_Comm_new.
+ * \param [in] Ccomm           Pointer to a C MPI communicator.
  */
 void
 t8_fortran_MPI_Comm_delete (sc_MPI_Comm *Ccomm);
 
-/** Wraps t8_cmesh_new_periodic_tri, passing the MPI communicator as pointer instead of by value
- * \param [in] Ccomm           Pointer to a C MPI communicator.
- * \param [out]                Example cmesh
+/** Wraps t8_cmesh_new_periodic_tri, passing the MPI communicator as pointer instead of by value
+ * \param [in] Ccomm           Pointer to a C MPI communicator.
+ * \param [out]                Example cmesh
  */
 t8_cmesh_t
 t8_cmesh_new_periodic_tri_wrap (sc_MPI_Comm *Ccomm);
 
-/** Wraps \ref t8_forest_new_uniform with the default scheme as scheme
- * and passes MPI communicator as pointer instead of by value.
- * Build a uniformly refined forest on a coarse mesh.
- * \param [in]      cmesh      A coarse mesh.
- * \param [in]      level      An initial uniform refinement level.
- * \param [in]      do_face_ghost If true, a layer of ghost elements is created for the forest.
- * \param [in]      comm       MPI communicator to use.
- * \return                     A uniform forest with coarse mesh \a cmesh, eclass_scheme
- *                             \a scheme and refinement level \a level.
+/** Wraps \ref t8_forest_new_uniform with the default scheme as scheme
+ * and passes MPI communicator as pointer instead of by value.
+ * Build a uniformly refined forest on a coarse mesh.
+ * \param [in]      cmesh      A coarse mesh.
+ * \param [in]      level      An initial uniform refinement level.
+ * \param [in]      do_face_ghost If true, a layer of ghost elements is created for the forest.
+ * \param [in]      comm       MPI communicator to use.
+ * \return                     A uniform forest with coarse mesh \a cmesh, eclass_scheme
+ *                             \a scheme and refinement level \a level.
  */
 t8_forest_t
 t8_forest_new_uniform_default (t8_cmesh_t cmesh, int level, int do_face_ghost, sc_MPI_Comm *comm);
 
-/**
- * \param [in, out] forest     The forest
- * \param [in] recursive       A flag specifying whether adaptation is to be done recursively
- *                             or not. If the value is zero, adaptation is not recursive
- *                             and it is recursive otherwise.
- * \param [in] callback        A pointer to a user defined function. t8code will never touch the function.
+/**
+ * \param [in, out] forest     The forest
+ * \param [in] recursive       A flag specifying whether adaptation is to be done recursively
+ *                             or not. If the value is zero, adaptation is not recursive
+ *                             and it is recursive otherwise.
+ * \param [in] callback        A pointer to a user defined function. t8code will never touch the function.
  */
 t8_forest_t
 t8_forest_adapt_by_coordinates (t8_forest_t forest, int recursive, t8_fortran_adapt_coordinate_callback callback);
 
-/** Log a message on the root rank with priority SC_LP_PRODUCTION.
- * \param [in] string         String to log.
+/** Wraps \ref t8_forest_element_from_ref_coords, passing the number of points as int.
+ * \param [in]      forest     The forest.
+ * \param [in]      ltreeid    The forest local id of the tree in which the element is.
+ * \param [in]      element    The element.
+ * \param [in]      ref_coords The reference coordinates of the points inside the element.
+ * \param [in]      num_coords The number of points.
+ * \param [out]     coords_out On output the coordinates of the points.
+ */
+void
+t8_fortran_element_from_ref_coords (t8_forest_t forest, t8_locidx_t ltreeid, const t8_element_t *element,
+                                    const double *ref_coords, int num_coords, double *coords_out);
+
+/** Log a message on the root rank with priority SC_LP_PRODUCTION.
+ * \param [in] string         String to log.
  */
 void
 t8_global_productionf_noargs (const char *string);
diff --git a/api/t8_fortran_interface/t8_fortran_interface_mod.f90 b/api/t8_fortran_interface/t8_fortran_interface_mod.f90
index eeceab3..e48097f 100644
--- a/api/t8_fortran_interface/t8_fortran_interface_mod.f90
+++ b/api/t8_fortran_interface/t8_fortran_interface_mod.f90
@@ -243,7 +243,7 @@ module t8_fortran_interface_mod
 
       interface
             subroutine t8_forest_element_from_ref_coords (forest, ltreeid, element, ref_coords, num_coords, coords_out) &
-                                    bind (c, name = 't8_forest_element_from_ref_coords')
+                                    bind (c, name = 't8_fortran_element_from_ref_coords')
                   use, intrinsic :: iso_c_binding, only: c_ptr, c_int, c_double
                   implicit none
                   type (c_ptr), value :: forest, element
-- 
2.43.0


From 654b887169295e3a220eb47758a5e6c455232c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:11 +0000
Subject: [PATCH 12/44] fix: reading the anchor of a quad element does not
 modify the element

---
 .../t8_default/t8_default_quad/t8_default_quad.cxx           | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/t8_schemes/t8_default/t8_default_quad/t8_default_quad.cxx b/src/t8_schemes/t8_default/t8_default_quad/t8_default_quad.cxx
index 071b6ac..a8308dd 100644
--- a/src/t8_schemes/t8_default/t8_default_quad/t8_default_quad.cxx
+++ b/src/t8_schemes/t8_default/t8_default_quad/t8_default_quad.cxx
@@ -655,14 +655,13 @@ t8_default_scheme_quad::element_get_face_neighbor_inside (const t8_element_t *el
 void
 t8_default_scheme_quad::element_get_anchor (const t8_element_t *elem, int coord[3]) const
 {
-  p4est_quadrant_t *q;
+  const p4est_quadrant_t *q;
 
   T8_ASSERT (element_is_valid (elem));
-  q = (p4est_quadrant_t *) elem;
+  q = (const p4est_quadrant_t *) elem;
   coord[0] = q->x;
   coord[1] = q->y;
   coord[2] = 0;
-  T8_QUAD_SET_TDIM (q, 2);
 }
 
 void
-- 
2.43.0


From d235481eb059f99fcad6cdc57c7a29ceb9ca2c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:28 +0000
Subject: [PATCH 13/44] fix: the consistency assertion of the pyramid successor
 compares instead of assigning

---
 src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c b/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
index 7116274..c712e0a 100644
--- a/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
@@ -1490,7 +1490,7 @@ t8_dpyramid_successor (const t8_dpyramid_t *elem, t8_dpyramid_t *succ, const int
     T8_ASSERT (succ->switch_shape_at_level < 0);
   }
   else {
-    T8_ASSERT (succ->switch_shape_at_level = t8_dpyramid_compute_switch_shape_at_level (succ));
+    T8_ASSERT (succ->switch_shape_at_level == t8_dpyramid_compute_switch_shape_at_level (succ));
   }
 #endif
 }
-- 
2.43.0


From 252d53e208cf355641712e697be63bba9f1994b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:05 +0000
Subject: [PATCH 14/44] fix: orientation of the periodic y-connection of the
 triangle and prism hypercube

Corner 0 of face 0 of tree 1 meets corner 1 of face 2 of tree 0.
---
 src/t8_cmesh/t8_cmesh_examples.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index afe23d4..527add0 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -773,7 +773,7 @@ t8_cmesh_new_hypercube (t8_cmesh_t *pcmesh, t8_eclass_t eclass, sc_MPI_Comm comm
       t8_cmesh_set_tree_vertices (cmesh, 1, attr_vertices, 6);
       if (periodic) {
         t8_cmesh_set_join (cmesh, 0, 1, 0, 1, 0);
-        t8_cmesh_set_join (cmesh, 0, 1, 2, 0, 0);
+        t8_cmesh_set_join (cmesh, 0, 1, 2, 0, 1);
         t8_cmesh_set_join (cmesh, 0, 0, 3, 4, 0);
         t8_cmesh_set_join (cmesh, 1, 1, 3, 4, 0);
       }
@@ -791,7 +791,7 @@ t8_cmesh_new_hypercube (t8_cmesh_t *pcmesh, t8_eclass_t eclass, sc_MPI_Comm comm
       t8_cmesh_set_tree_vertices (cmesh, 1, attr_vertices, 3);
       if (periodic) {
         t8_cmesh_set_join (cmesh, 0, 1, 0, 1, 0);
-        t8_cmesh_set_join (cmesh, 0, 1, 2, 0, 0);
+        t8_cmesh_set_join (cmesh, 0, 1, 2, 0, 1);
       }
       break;
     case T8_ECLASS_TET:
-- 
2.43.0


From 75d437e61e1b2681d58f2c45b301acd954ab8df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:05 +0000
Subject: [PATCH 15/44] fix: join the faces of the funny oriented prism cake
 that coincide

The listed face numbers and orientations did not match the rotated vertices.
---
 src/t8_cmesh/t8_cmesh_examples.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index 527add0..a9409ba 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -2107,12 +2107,12 @@ t8_cmesh_new_prism_cake_funny_oriented (t8_cmesh_t cmesh, sc_MPI_Comm comm)
     t8_cmesh_set_tree_class (cmesh, i, T8_ECLASS_PRISM);
   }
 
-  t8_cmesh_set_join (cmesh, 0, 1, 2, 0, 3);
-  t8_cmesh_set_join (cmesh, 1, 2, 1, 2, 0);
-  t8_cmesh_set_join (cmesh, 2, 3, 0, 0, 0);
-  t8_cmesh_set_join (cmesh, 3, 4, 1, 0, 0);
-  t8_cmesh_set_join (cmesh, 4, 5, 2, 2, 0);
-  t8_cmesh_set_join (cmesh, 5, 0, 1, 1, 0);
+  t8_cmesh_set_join (cmesh, 0, 1, 1, 1, 1);
+  t8_cmesh_set_join (cmesh, 1, 2, 0, 0, 1);
+  t8_cmesh_set_join (cmesh, 2, 3, 2, 0, 1);
+  t8_cmesh_set_join (cmesh, 3, 4, 2, 0, 1);
+  t8_cmesh_set_join (cmesh, 4, 5, 2, 1, 0);
+  t8_cmesh_set_join (cmesh, 5, 0, 0, 2, 1);
 
   for (i = 0; i < 6; i++) {
     t8_cmesh_set_tree_vertices (cmesh, i, vertices + i * 18, 6);
-- 
2.43.0


From 94bad82111090a104b476c3d71cd78ea156a5785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:05 +0000
Subject: [PATCH 16/44] fix: join the faces of the long pyramid brick that
 coincide

The face numbers of the odd cubes and between cubes did not match the vertices.
---
 src/t8_cmesh/t8_cmesh_examples.cxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index a9409ba..5e0c7cc 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -2807,19 +2807,19 @@ t8_cmesh_new_long_brick_pyramid (t8_cmesh_t cmesh, sc_MPI_Comm comm, int num_cub
       t8_cmesh_set_join (cmesh, current_cube * 3 + 2, current_cube * 3, 2, 0, 0);
     }
     else {
-      t8_cmesh_set_join (cmesh, current_cube * 3, current_cube * 3 + 1, 2, 2, 0);
-      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, current_cube * 3 + 2, 1, 0, 0);
+      t8_cmesh_set_join (cmesh, current_cube * 3, current_cube * 3 + 1, 1, 2, 1);
+      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, current_cube * 3 + 2, 0, 1, 0);
       t8_cmesh_set_join (cmesh, current_cube * 3 + 2, current_cube * 3, 2, 3, 0);
     }
   }
   /* over cube face connection */
   for (current_cube = 0; current_cube < num_cubes - 1; current_cube++) {
     if (current_cube % 2 == 0) {
-      t8_cmesh_set_join (cmesh, current_cube * 3, (current_cube + 1) * 3, 2, 0, 0);
-      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, (current_cube + 1) * 3 + 2, 3, 3, 0);
+      t8_cmesh_set_join (cmesh, current_cube * 3, (current_cube + 1) * 3, 1, 0, 0);
+      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, (current_cube + 1) * 3 + 2, 1, 0, 0);
     }
     else {
-      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, (current_cube + 1) * 3 + 2, 4, 4, 0);
+      t8_cmesh_set_join (cmesh, current_cube * 3 + 1, (current_cube + 1) * 3 + 2, 4, 4, 1);
     }
   }
   /* vertices */
-- 
2.43.0


From 24860fe428e1517bbeddec42c13c1fab97694deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:05 +0000
Subject: [PATCH 17/44] fix: join the faces of the row of cubes that coincide

The cubes are placed in positive x direction, so face 1 of a tree meets face 0 of the next.
---
 src/t8_cmesh/t8_cmesh_examples.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index 5e0c7cc..1692cc6 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -2897,7 +2897,7 @@ t8_cmesh_new_row_of_cubes (t8_cmesh_t cmesh, t8_locidx_t num_trees, const int se
 
   /* Join the hexes. */
   for (t8_locidx_t tree_id = 0; tree_id < num_trees - 1; tree_id++) {
-    t8_cmesh_set_join (cmesh, tree_id, tree_id + 1, 0, 1, 0);
+    t8_cmesh_set_join (cmesh, tree_id, tree_id + 1, 1, 0, 0);
   }
 
   /* Check whether the cmesh will be partitioed */
-- 
2.43.0


From ca53ee1c3f20bc6615f50b2866ce6b68f12c4060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:41 +0000
Subject: [PATCH 18/44] fix: release the node index buffer on the error paths
 of the msh node reader

---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index af46d40..d3e6adb 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -407,7 +407,6 @@ t8_msh_file_4_read_nodes (FILE *fp)
   size_t linen = 1024;
   int retval;
   long num_nodes_in_block, lnum_nodes, lnum_blocks;
-  long *index_buffer;
 
   T8_ASSERT (fp != NULL);
   /* Go to the beginning of the file */
@@ -464,7 +463,7 @@ t8_msh_file_4_read_nodes (FILE *fp)
       return std::nullopt;
     }
     /* Read all node indices in this block */
-    index_buffer = T8_ALLOC (long, num_nodes_in_block);
+    std::vector<long> index_buffer (num_nodes_in_block);
     for (ln = 0; ln < num_nodes_in_block; ++ln) {
       retval = t8_cmesh_msh_read_next_line (&line, &linen, fp);
       if (retval < 0) {
@@ -539,7 +538,6 @@ t8_msh_file_4_read_nodes (FILE *fp)
       T8_ASSERT (emplaced.first->index == index_buffer[ln]);
       last_index = index_buffer[ln];
     }
-    T8_FREE (index_buffer);
   }
   free (line);
   t8_debugf ("Successfully read all Nodes.\n");
-- 
2.43.0


From 7fc9b83de434271c0dc9b4e51c2d1c93b83aa46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:41 +0000
Subject: [PATCH 19/44] fix: do not leak two elements when looking for the
 siblings of a root element

---
 src/t8_forest/t8_forest_pfc_helper.cxx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/t8_forest/t8_forest_pfc_helper.cxx b/src/t8_forest/t8_forest_pfc_helper.cxx
index 5dd890e..e0bddab 100644
--- a/src/t8_forest/t8_forest_pfc_helper.cxx
+++ b/src/t8_forest/t8_forest_pfc_helper.cxx
@@ -41,12 +41,8 @@ t8_forest_pfc_extreme_local_sibling (const t8_scheme_c *scheme, const t8_tree_t
   // The increment may either be +1 or -1.
   T8_ASSERT (abs (signed_increment) == 1);
 
-  // Initialization and memory allocation.
+  // Initialization.
   const t8_eclass_t tree_class = tree->eclass;
-  t8_element_t *parent_possible_sibling, *parent_start;
-  t8_element_new (scheme, tree_class, 1, &parent_possible_sibling);
-  t8_element_new (scheme, tree_class, 1, &parent_start);
-
   // Determine start element from tree and start ID within tree.
   const t8_element_t *start_element = t8_forest_get_tree_leaf_element (tree, start_element_id_in_tree);
 
@@ -55,6 +51,11 @@ t8_forest_pfc_extreme_local_sibling (const t8_scheme_c *scheme, const t8_tree_t
     return start_element_id_in_tree;
   }
 
+  // Memory allocation.
+  t8_element_t *parent_possible_sibling, *parent_start;
+  t8_element_new (scheme, tree_class, 1, &parent_possible_sibling);
+  t8_element_new (scheme, tree_class, 1, &parent_start);
+
   // Get parent of start element.
   scheme->element_get_parent (tree_class, start_element, parent_start);
 
-- 
2.43.0


From 4f8c268d405d20d5920961f6a14e477e53ff3e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:11 +0000
Subject: [PATCH 20/44] fix: do not use and destroy a temporary element again
 after an overlap was found

---
 src/t8_forest/t8_forest.cxx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index 04ee2da..f6dd449 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -318,7 +318,6 @@ t8_forest_no_overlap ([[maybe_unused]] t8_forest_t forest)
       scheme->element_get_nca (tree_class, element_a, element_b, element_nca);
       if (scheme->element_get_level (tree_class, element_a) == scheme->element_get_level (tree_class, element_nca)
           || scheme->element_get_level (tree_class, element_b) == scheme->element_get_level (tree_class, element_nca)) {
-        scheme->element_destroy (tree_class, 1, &element_nca);
         has_overlap_local = 1;
       }
     }
-- 
2.43.0


From 93f9137100ae885ca2fbb6b31083ba4fea115568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:38 +0000
Subject: [PATCH 21/44] fix: forget the profile after it was released when
 profiling is disabled

---
 src/t8_cmesh/t8_cmesh.cxx   | 1 +
 src/t8_forest/t8_forest.cxx | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index e369eb1..1991cf8 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -611,6 +611,7 @@ t8_cmesh_set_profiling (t8_cmesh_t cmesh, const int set_profiling)
     /* Free any profile that is already set */
     if (cmesh->profile != nullptr) {
       T8_FREE (cmesh->profile);
+      cmesh->profile = nullptr;
     }
   }
 }
diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index f6dd449..d0d560c 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -3973,6 +3973,7 @@ t8_forest_set_profiling (t8_forest_t forest, int set_profiling)
     /* Free any profile that is already set */
     if (forest->profile != nullptr) {
       T8_FREE (forest->profile);
+      forest->profile = nullptr;
     }
   }
 }
-- 
2.43.0


From 9be44962410c592f31651c015d89b3931abc484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:31 +0000
Subject: [PATCH 22/44] fix: test the cmesh for NULL before accessing its
 geometry handler

---
 src/t8_cmesh/t8_cmesh.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 1991cf8..0465c06 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -162,11 +162,11 @@ t8_cmesh_validate_geometry (const t8_cmesh_t cmesh, const int check_for_negative
  * registered yet, since the validity computation depends on the used geometry.
  */
 
-  /* Geometry handler is not constructed yet */
-  if (cmesh->geometry_handler == NULL) {
+  if (cmesh == NULL) {
     return true;
   }
-  if (cmesh == NULL) {
+  /* Geometry handler is not constructed yet */
+  if (cmesh->geometry_handler == NULL) {
     return true;
   }
   if (cmesh->geometry_handler->get_num_geometries () > 0) {
-- 
2.43.0


From 00eb908ae9ca81eb6fbd15952faf2bb2b001fa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:31 +0000
Subject: [PATCH 23/44] fix: enable profiling for the received cmesh when
 broadcasting

---
 src/t8_cmesh/t8_cmesh.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 0465c06..5d79068 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -767,7 +767,7 @@ t8_cmesh_bcast (const t8_cmesh_t cmesh_in, const int root, sc_MPI_Comm comm)
     cmesh_out->num_ghosts = 0;
     T8_ASSERT (cmesh_out->set_partition == 0);
     if (meta_info.cmesh.profile != nullptr) {
-      t8_cmesh_set_profiling (cmesh_in, 1);
+      t8_cmesh_set_profiling (cmesh_out, 1);
     }
     for (iclass = 0; iclass < T8_ECLASS_COUNT; iclass++) {
       cmesh_out->num_trees_per_eclass[iclass] = meta_info.num_trees_per_eclass[iclass];
-- 
2.43.0


From 93a30bc79b51b2cc2e5e937d8ea3149a7be51fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:07 +0000
Subject: [PATCH 24/44] fix: abort with an error instead of dereferencing a
 NULL geometry handler

---
 src/t8_geometry/t8_geometry.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/t8_geometry/t8_geometry.cxx b/src/t8_geometry/t8_geometry.cxx
index b2a3109..d70f942 100644
--- a/src/t8_geometry/t8_geometry.cxx
+++ b/src/t8_geometry/t8_geometry.cxx
@@ -57,6 +57,10 @@ void
 t8_geometry_jacobian (t8_cmesh_t cmesh, t8_gloidx_t gtreeid, const double *ref_coords, const size_t num_coords,
                       double *jacobian)
 {
+  if (cmesh->geometry_handler == nullptr) {
+    SC_ABORT ("Error: Trying to evaluate non-existing geometry.\n");
+  }
+
   /* Evaluate the jacobian. */
   cmesh->geometry_handler->evaluate_tree_geometry_jacobian (cmesh, gtreeid, ref_coords, num_coords, jacobian);
 }
@@ -74,5 +78,9 @@ t8_geometry_get_type (t8_cmesh_t cmesh, t8_gloidx_t gtreeid)
 int
 t8_geometry_tree_negative_volume (const t8_cmesh_t cmesh, const t8_gloidx_t gtreeid)
 {
+  if (cmesh->geometry_handler == nullptr) {
+    SC_ABORT ("Error: Trying to evaluate non-existing geometry.\n");
+  }
+
   return cmesh->geometry_handler->tree_negative_volume (cmesh, gtreeid);
 }
-- 
2.43.0


From b66ceda19bd9c59fb498712d9fd65bba6d2069fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:28 +0000
Subject: [PATCH 25/44] fix: do not dereference the NULL tree when the vertices
 of a ghost tree cannot be read

---
 src/t8_vtk/t8_vtk_write_ASCII.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_vtk/t8_vtk_write_ASCII.cxx b/src/t8_vtk/t8_vtk_write_ASCII.cxx
index 35bcb21..9f7bca4 100644
--- a/src/t8_vtk/t8_vtk_write_ASCII.cxx
+++ b/src/t8_vtk/t8_vtk_write_ASCII.cxx
@@ -1034,7 +1034,7 @@ t8_cmesh_vtk_write_file_ext (const t8_cmesh_t cmesh, const char *fileprefix, con
         vertices = (double *) t8_cmesh_get_attribute (cmesh, t8_get_package_id (), 0, ighost + num_loc_trees);
         if (vertices == nullptr) {
           t8_errorf ("Error in writing file %s. Could not read vertex coordinates for cmesh tree %i.\n", vtufilename,
-                     tree->treeid);
+                     (int) (ighost + num_loc_trees));
           fclose (vtufile);
           return write_failure;
         }
-- 
2.43.0


From 8e293ea64cb6c9c71f9fc2be10f2e351e0f2cea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:23 +0000
Subject: [PATCH 26/44] fix: do not destroy the cmesh twice when reading the
 elements of a msh file fails

---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index d3e6adb..d03cc56 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -1253,7 +1253,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
       t8_global_errorf ("Premature end of line while reading num trees.\n");
       t8_debugf ("The line is %s", line);
       free (line);
-      t8_cmesh_destroy (&cmesh);
       return std::nullopt;
     }
   }
@@ -1268,7 +1267,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
     t8_global_errorf ("Premature end of line while reading num trees and num blocks.\n");
     t8_debugf ("The line is %s", line);
     free (line);
-    t8_cmesh_destroy (&cmesh);
     return std::nullopt;
   }
   num_trees = lnum_trees;
@@ -1286,7 +1284,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
     if (retval < 0) {
       t8_global_errorf ("Premature end of line while reading trees.\n");
       free (line);
-      t8_cmesh_destroy (&cmesh);
       return std::nullopt;
     }
     retval = sscanf (line, "%i %li %i %li", &entity_dim, &entity_tag, &ele_type, &num_ele_in_block);
@@ -1295,7 +1292,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
       t8_global_errorf ("Error while reading element block information.\n");
       t8_debugf ("The line is %s", line);
       free (line);
-      t8_cmesh_destroy (&cmesh);
       return std::nullopt;
     }
     /* Check if the tree type is supported */
@@ -1303,7 +1299,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
         || t8_msh_tree_type_to_eclass[ele_type] == T8_ECLASS_COUNT) {
       t8_global_errorf ("tree type %i is not supported by t8code.\n", ele_type);
       free (line);
-      t8_cmesh_destroy (&cmesh);
       return std::nullopt;
     }
     eclass = t8_msh_tree_type_to_eclass[ele_type];
@@ -1323,7 +1318,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
         if (retval < 0) {
           t8_global_errorf ("Premature end of line while reading trees.\n");
           free (line);
-          t8_cmesh_destroy (&cmesh);
           return std::nullopt;
         }
       }
@@ -1335,7 +1329,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
         if (retval < 0) {
           t8_global_errorf ("Premature end of line while reading trees.\n");
           free (line);
-          t8_cmesh_destroy (&cmesh);
           return std::nullopt;
         }
         t8_cmesh_set_tree_class (cmesh, tree_count, eclass);
@@ -1361,7 +1354,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
             t8_global_errorf ("Premature end of line while reading tree.\n");
             t8_debugf ("The line is %s", line);
             free (line);
-            t8_cmesh_destroy (&cmesh);
             return std::nullopt;
           }
           /* Get node from the hashtable */
@@ -1401,7 +1393,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
           if (!t8_cmesh_process_tree_geometry (cmesh, eclass, dim, tree_count, cad_geometry_base, linear_geometry_base,
                                                tree_nodes)) {
             free (line);
-            t8_cmesh_destroy (&cmesh);
             return std::nullopt;
           }
 
@@ -1415,7 +1406,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
   free (line);
   if (tree_count == 0) {
     t8_global_errorf ("Warning: No %iD elements found in msh file.\n", dim);
-    t8_cmesh_destroy (&cmesh);
     return std::nullopt;
   }
   return std::make_optional<t8_msh_tree_vertex_indices> (vertex_indices);
-- 
2.43.0


From 0168bc143a6228e47fa18cfdd6c6f6b0d4446a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:48 +0000
Subject: [PATCH 27/44] fix: reject msh files with unknown nodes, truncated
 elements or wrong counts

---
 .../t8_cmesh_io/t8_cmesh_readmshfile.cxx      | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index d03cc56..4fa3e8e 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -431,7 +431,7 @@ t8_msh_file_4_read_nodes (FILE *fp)
    * to t8_locidx_t. */
   retval = sscanf (line, "%li %li %*i %*i", &lnum_blocks, &lnum_nodes);
   /* Checking for read/write error */
-  if (retval != 2) {
+  if (retval != 2 || lnum_nodes <= 0) {
     t8_global_errorf ("Premature end of line while reading num nodes and num blocks.\n");
     t8_debugf ("The line is %s.", line);
     free (line);
@@ -457,7 +457,7 @@ t8_msh_file_4_read_nodes (FILE *fp)
       return std::nullopt;
     }
     retval = sscanf (line, "%i %i %i %li", &entity_dim, &entity_tag, &parametric, &num_nodes_in_block);
-    if (retval != 4) {
+    if (retval != 4 || num_nodes_in_block < 0) {
       t8_global_errorf ("Error reading block after node %li in $Nodes section.\n", (long) last_index);
       free (line);
       return std::nullopt;
@@ -1263,7 +1263,7 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
    * number of trees in a long int and store it as t8_locidx_t later. */
   retval = sscanf (line, "%li %li %*i %*i", &lnum_blocks, &lnum_trees);
   /* Checking for read/write error */
-  if (retval != 2) {
+  if (retval != 2 || lnum_trees < 0) {
     t8_global_errorf ("Premature end of line while reading num trees and num blocks.\n");
     t8_debugf ("The line is %s", line);
     free (line);
@@ -1331,6 +1331,11 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
           free (line);
           return std::nullopt;
         }
+        if (tree_count >= num_trees) {
+          t8_global_errorf ("The msh file contains more elements than specified.\n");
+          free (line);
+          return std::nullopt;
+        }
         t8_cmesh_set_tree_class (cmesh, tree_count, eclass);
 
         /* The line describing the tree looks like
@@ -1348,8 +1353,8 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
         std::vector<t8_gloidx_t> node_indices (num_nodes, -1);
         for (int i_node = 0; i_node < num_nodes; i_node++) {
           const int t8_vertex_num = t8_msh_tree_vertex_to_t8_vertex_num[eclass][i_node];
-          T8_ASSERT (strcmp (line_modify, "\0"));
-          retval = sscanf (line_modify, "%" T8_GLOIDX_FORMAT, &node_indices[t8_vertex_num]);
+          /* If no word is left in the line, line_modify is NULL. */
+          retval = line_modify != NULL ? sscanf (line_modify, "%" T8_GLOIDX_FORMAT, &node_indices[t8_vertex_num]) : 0;
           if (retval != 1) {
             t8_global_errorf ("Premature end of line while reading tree.\n");
             t8_debugf ("The line is %s", line);
@@ -1358,7 +1363,13 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
           }
           /* Get node from the hashtable */
           Node.index = node_indices[t8_vertex_num];
-          tree_nodes[t8_vertex_num] = *vertices.find (Node);
+          const auto found_node = vertices.find (Node);
+          if (found_node == vertices.end ()) {
+            t8_global_errorf ("Element refers to node %li, which is not part of the msh file.\n", (long) Node.index);
+            free (line);
+            return std::nullopt;
+          }
+          tree_nodes[t8_vertex_num] = *found_node;
 
           /* move line_modify to the next word in the line */
           (void) strsep (&line_modify, " ");
-- 
2.43.0


From c9f1347ec9249d8429b67ddac1153b702b686d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:48 +0000
Subject: [PATCH 28/44] fix: read all files of an OpenFOAM case and report an
 error if one of them fails

---
 src/t8_openfoam/t8_openfoam_reader.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/t8_openfoam/t8_openfoam_reader.cxx b/src/t8_openfoam/t8_openfoam_reader.cxx
index ebe64f1..a208945 100644
--- a/src/t8_openfoam/t8_openfoam_reader.cxx
+++ b/src/t8_openfoam/t8_openfoam_reader.cxx
@@ -40,9 +40,9 @@ t8_openfoam_reader::read ()
   /* The file reading needs to happen in this order, since these functions depend on each other. */
   bool error = 0;
   error = !read_points (case_points_file);
-  error = error && !read_faces (case_faces_file);
-  error = error && !read_owner (case_owner_file);
-  error = error && !read_neighbor (case_neighbor_file);
+  error = error || !read_faces (case_faces_file);
+  error = error || !read_owner (case_owner_file);
+  error = error || !read_neighbor (case_neighbor_file);
 
   if (error) {
     /* Return the uninitialized cmesh (nullptr) */
-- 
2.43.0


From d19217da19b3b70c7e1650e08ba97e99b3c9adec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:50 +0000
Subject: [PATCH 29/44] fix: report malformed OpenFOAM files as errors

---
 src/t8_openfoam/t8_openfoam_reader.cxx | 34 +++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/t8_openfoam/t8_openfoam_reader.cxx b/src/t8_openfoam/t8_openfoam_reader.cxx
index a208945..d9b1c02 100644
--- a/src/t8_openfoam/t8_openfoam_reader.cxx
+++ b/src/t8_openfoam/t8_openfoam_reader.cxx
@@ -144,7 +144,10 @@ t8_openfoam_reader::read_openfoam_label_list (std::istream& input_stream, std::v
 {
   /* Get size of list */
   size_t list_size = 0;
-  input_stream >> list_size;
+  if (!(input_stream >> list_size)) {
+    t8_errorf ("Unable to read size of OpenFOAM list.\n");
+    return false;
+  }
 
   /* Get list opening delimiter */
   char opening_delimiter = '\0';
@@ -159,7 +162,10 @@ t8_openfoam_reader::read_openfoam_label_list (std::istream& input_stream, std::v
     /* Read values */
     while (values.size () < list_size) {
       size_t list_value;
-      input_stream >> list_value;
+      if (!(input_stream >> list_value)) {
+        t8_errorf ("Unable to read value of OpenFOAM list.\n");
+        return false;
+      }
       values.emplace_back (list_value);
     }
 
@@ -169,18 +175,21 @@ t8_openfoam_reader::read_openfoam_label_list (std::istream& input_stream, std::v
     if (closing_delimiter == ')') {
       return true;
     }
-    [[fallthrough]];
+    t8_errorf ("Unrecognized encoding of OpenFOAM list.\n");
+    return false;
   }
 
   /* Uniform encoding: <num_values>{val} */
   case '{': {
     /* Get the uniform value. */
     size_t uniform_value = 0;
-    input_stream >> uniform_value;
+    if (!(input_stream >> uniform_value)) {
+      t8_errorf ("Unable to read value of OpenFOAM list.\n");
+      return false;
+    }
 
     /* Assign uniform values to list. */
     values.assign (list_size, uniform_value);
-    return true;
 
     /* Check for expected closing delimiter. */
     char closing_delimiter = '\0';
@@ -222,7 +231,10 @@ t8_openfoam_reader::read_points (const t8_path& points_file)
     if (iss >> n_points)
       break;
   }
-  T8_ASSERTF (n_points > 0, "ERROR: Mesh contains no coordinates.");
+  if (n_points == 0) {
+    t8_errorf ("ERROR: Mesh contains no coordinates: %s\n", points_file.c_str ());
+    return false;
+  }
 
   std::vector<std::array<double, 3>> points;
   points.reserve (n_points);
@@ -269,6 +281,7 @@ t8_openfoam_reader::read_faces (const t8_path& faces_file)
   std::istringstream iss (line);
   if (!(iss >> n_faces)) {
     t8_errorf ("ERROR: Unable to parse file: %s\n", faces_file.c_str ());
+    return false;
   }
 
   /* skip opening '(' */
@@ -312,6 +325,11 @@ t8_openfoam_reader::read_owner (const t8_path& owner_file)
     return false;
   }
 
+  if (owner_list.empty ()) {
+    t8_errorf ("ERROR: No owners found in file: %s\n", owner_file.c_str ());
+    return false;
+  }
+
   /* The number of cells in the mesh is the highest owner_id + 1 (since it starts at 0). */
   const size_t num_cells = *std::max_element (owner_list.begin (), owner_list.end ()) + 1;
   t8_debugf ("Reading OpenFOAM mesh with %li cells.\n", num_cells);
@@ -354,6 +372,10 @@ t8_openfoam_reader::read_neighbor (const t8_path& neighbor_file)
   /* Assign faces to their cells and fill neighborhoods. */
   for (size_t face_id = 0; face_id < neighbor_list.size (); ++face_id) {
     const size_t cell_id = neighbor_list[face_id];
+    if (cell_id >= m_cell_faces.size ()) {
+      t8_errorf ("ERROR: Unable to parse file: %s\n", neighbor_file.c_str ());
+      return false;
+    }
     /* Add face to owner cell. Normal points inwards (-1). */
     m_cell_faces[cell_id].emplace_back (std::make_pair (face_id, 0));
   }
-- 
2.43.0


From 7455a965e027c13a84054cbb1cdbb2a313ccb556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:20 +0000
Subject: [PATCH 30/44] fix: broadcast the stash from the given root process

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
index ca7571d..8fa0a63 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
@@ -309,17 +309,17 @@ t8_stash_bcast (const t8_stash_t stash, const int root, sc_MPI_Comm comm, const
   }
   if (elem_counts[0] > 0) {
     mpiret = sc_MPI_Bcast (stash->attributes.array, elem_counts[0] * sizeof (t8_stash_attribute_struct_t), sc_MPI_BYTE,
-                           0, comm);
+                           root, comm);
     SC_CHECK_MPI (mpiret);
     t8_stash_bcast_attributes (&stash->attributes, root, comm);
   }
   if (elem_counts[1] > 0) {
     mpiret
-      = sc_MPI_Bcast (stash->classes.array, elem_counts[1] * sizeof (t8_stash_class_struct_t), sc_MPI_BYTE, 0, comm);
+      = sc_MPI_Bcast (stash->classes.array, elem_counts[1] * sizeof (t8_stash_class_struct_t), sc_MPI_BYTE, root, comm);
     SC_CHECK_MPI (mpiret);
   }
   if (elem_counts[2] > 0) {
-    mpiret = sc_MPI_Bcast (stash->joinfaces.array, elem_counts[2] * sizeof (t8_stash_joinface_struct_t), sc_MPI_BYTE, 0,
+    mpiret = sc_MPI_Bcast (stash->joinfaces.array, elem_counts[2] * sizeof (t8_stash_joinface_struct_t), sc_MPI_BYTE, root,
                            comm);
     SC_CHECK_MPI (mpiret);
   }
-- 
2.43.0


From 57379102e31dcc92b699892fc1abc75aaf0205b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:06 +0000
Subject: [PATCH 31/44] fix: let the root process describe the tree parts in
 t8_cmesh_trees_bcast

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
index 87f88d1..68c7ee0 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
@@ -1057,7 +1057,7 @@ t8_cmesh_trees_bcast (const t8_cmesh_t cmesh_in, const int root, const sc_MPI_Co
 
   for (ipart = 0; ipart < num_parts; ipart++) {
     part = t8_cmesh_trees_get_part (trees, ipart);
-    if (mpirank == 0) {
+    if (mpirank == root) {
       /* Gather information about part */
       part_info.num_trees = part->num_trees;
       part_info.first_tree_id = part->first_tree_id;
-- 
2.43.0


From c2ad47334c41b601fe533649225a18c5682224f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:10 +0000
Subject: [PATCH 32/44] fix: let processes without trees take part in the
 partitioned commit of disjoint bricks

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index 1692cc6..f211b88 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -1524,16 +1524,8 @@ t8_cmesh_new_hypercube_pad_ext (t8_cmesh_t cmesh, const t8_eclass_t eclass, sc_M
       /* Set the partition (with offsets) */
       t8_cmesh_set_partition_range (cmesh, 3, first_tree, last_tree);
 
-#if T8_ENABLE_DEBUG
-      t8_gloidx_t num_global_trees;
-      /* The global number of trees is the sum over all numbers of trees in conn on each process */
-      int mpiret = sc_MPI_Allreduce (&num_local_trees, &num_global_trees, 1, T8_MPI_GLOIDX, sc_MPI_SUM, comm);
-      SC_CHECK_MPI (mpiret);
-
-      t8_debugf ("Generating partitioned cmesh from connectivity\n"
-                 "Has %li global and %li local trees.\n",
-                 num_global_trees, num_local_trees);
-#endif
+      /* Only the processes that have trees get here, so the global number of trees cannot be gathered. */
+      t8_debugf ("Generating partitioned cmesh with %li local trees.\n", (long) num_local_trees);
     }
   }
 
@@ -1688,12 +1680,10 @@ t8_cmesh_new_disjoint_bricks (t8_cmesh_t cmesh, t8_gloidx_t num_x, t8_gloidx_t n
     }
   }
   else {
-    num_x = num_y = num_z = 0;
-    num_trees = 0;
-    offset = 0;
-
-    /* Create empty cmesh. */
+    /* This process has no trees, but takes part in the partitioned commit. */
+    t8_cmesh_set_dimension (cmesh, dim);
     t8_cmesh_register_geometry<t8_geometry_linear> (cmesh);
+    t8_cmesh_set_partition_range (cmesh, 3, offset, offset - 1);
     t8_cmesh_commit (cmesh, comm);
   }
 }
-- 
2.43.0


From cf0b5d3008a16d66b07a2c09ee6c39bbba895b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:10 +0000
Subject: [PATCH 33/44] fix: return from ghost creation without ghost type
 before anything collective is set up

---
 src/t8_forest/t8_forest_ghost.cxx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/t8_forest/t8_forest_ghost.cxx b/src/t8_forest/t8_forest_ghost.cxx
index f8c6230..1fd429c 100644
--- a/src/t8_forest/t8_forest_ghost.cxx
+++ b/src/t8_forest/t8_forest_ghost.cxx
@@ -1526,6 +1526,12 @@ t8_forest_ghost_create_ext (t8_forest_t forest, int unbalanced_version)
 
   t8_productionf ("Into t8_forest_ghost with %i local elements.\n", t8_forest_get_local_num_leaf_elements (forest));
 
+  if (forest->ghost_type == T8_GHOST_NONE) {
+    t8_debugf ("WARNING: Trying to construct ghosts with ghost_type NONE. "
+               "Ghost layer is not constructed.\n");
+    return;
+  }
+
   /* In parallel, check forest for deleted elements. The ghost algorithm currently
   * does not work on forests with deleted elements.
   * See also: https://github.com/DLR-AMR/t8code/issues/825
@@ -1561,11 +1567,6 @@ t8_forest_ghost_create_ext (t8_forest_t forest, int unbalanced_version)
   }
 
   if (t8_forest_get_local_num_leaf_elements (forest) > 0) {
-    if (forest->ghost_type == T8_GHOST_NONE) {
-      t8_debugf ("WARNING: Trying to construct ghosts with ghost_type NONE. "
-                 "Ghost layer is not constructed.\n");
-      return;
-    }
     /* Currently we only support face ghosts */
     T8_ASSERT (forest->ghost_type == T8_GHOST_FACES);
 
-- 
2.43.0


From 12b7f97ea150919024b893dbcd283027b6fe7bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:42 +0000
Subject: [PATCH 34/44] fix: compute forest statistics over the processes of
 the forest

---
 src/t8_forest/t8_forest.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index d0d560c..ee50a23 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -4006,7 +4006,7 @@ t8_forest_compute_profile (t8_forest_t forest)
     sc_stats_set1 (&forest->stats[15], profile->balance_rounds, "forest: offset runtime.");
     sc_stats_set1 (&forest->stats[16], profile->balance_rounds, "forest: first descendant runtime.");
     /* compute stats */
-    sc_stats_compute (sc_MPI_COMM_WORLD, T8_PROFILE_NUM_STATS, forest->stats);
+    sc_stats_compute (forest->mpicomm, T8_PROFILE_NUM_STATS, forest->stats);
     forest->stats_computed = 1;
   }
 }
-- 
2.43.0


From d7f4cc1ffa2dc26e2cff672f550e2e8d308e762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:07 +0000
Subject: [PATCH 35/44] fix: reset the caller's handle in t8_stash_destroy

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
index 8fa0a63..5a16a4c 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
@@ -67,7 +67,7 @@ t8_stash_destroy (t8_stash_t *pstash)
   }
   sc_array_reset (&stash->attributes);
   T8_FREE (stash);
-  pstash = NULL;
+  *pstash = NULL;
 }
 
 void
-- 
2.43.0


From 6e244fca4cad01a04f9c972592193100e428f6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:07 +0000
Subject: [PATCH 36/44] fix: reset the caller's handle in
 t8_cmesh_trees_destroy

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
index 68c7ee0..4d8e50a 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
@@ -1292,5 +1292,5 @@ t8_cmesh_trees_destroy (t8_cmesh_trees_t *ptrees)
   sc_mempool_destroy (trees->global_local_mempool);
 
   T8_FREE (trees);
-  ptrees = nullptr;
+  *ptrees = nullptr;
 }
-- 
2.43.0


From 8dcd5215c7d280d42db933c72508a952283ee16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:07 +0000
Subject: [PATCH 37/44] fix: reset the caller's handle in t8_forest_ghost_reset

---
 src/t8_forest/t8_forest_ghost.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_forest/t8_forest_ghost.cxx b/src/t8_forest/t8_forest_ghost.cxx
index 1fd429c..e8d616d 100644
--- a/src/t8_forest/t8_forest_ghost.cxx
+++ b/src/t8_forest/t8_forest_ghost.cxx
@@ -2057,7 +2057,7 @@ t8_forest_ghost_reset (t8_forest_ghost_t *pghost)
 
   /* Free the ghost */
   T8_FREE (ghost);
-  pghost = nullptr;
+  *pghost = nullptr;
 }
 
 void
-- 
2.43.0


From 2d4b3f257da51ec1aa064e793659be5ce6929323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:09 +0000
Subject: [PATCH 38/44] fix: zero geometry writes the coordinates of each point
 of a batch

---
 .../t8_geometry_implementations/t8_geometry_zero.cxx        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx b/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
index 0c40d27..8823357 100644
--- a/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
+++ b/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
@@ -41,9 +41,9 @@ t8_geometry_zero::t8_geom_evaluate ([[maybe_unused]] t8_cmesh_t cmesh, [[maybe_u
 {
   /* Set the out_coords to 0 */
   for (size_t coord = 0; coord < num_coords; coord++) {
-    out_coords[0 + num_coords * T8_ECLASS_MAX_DIM] = 0;
-    out_coords[1 + num_coords * T8_ECLASS_MAX_DIM] = 0;
-    out_coords[2 + num_coords * T8_ECLASS_MAX_DIM] = 0;
+    out_coords[0 + coord * T8_ECLASS_MAX_DIM] = 0;
+    out_coords[1 + coord * T8_ECLASS_MAX_DIM] = 0;
+    out_coords[2 + coord * T8_ECLASS_MAX_DIM] = 0;
   }
 }
 
-- 
2.43.0


From 3f1530a6430320efc3587f06a1a6ee84c3361fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:09 +0000
Subject: [PATCH 39/44] fix: linear geometry of a vertex tree reads beyond its
 only vertex for a batch

---
 src/t8_geometry/t8_geometry_helpers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_geometry/t8_geometry_helpers.c b/src/t8_geometry/t8_geometry_helpers.c
index 23235bb..43063a6 100644
--- a/src/t8_geometry/t8_geometry_helpers.c
+++ b/src/t8_geometry/t8_geometry_helpers.c
@@ -114,7 +114,7 @@ t8_geom_compute_linear_geometry (t8_eclass_t tree_class, const double *tree_vert
     for (i_coord = 0; i_coord < num_coords; i_coord++) {
       const size_t offset_domain_dim = i_coord * T8_ECLASS_MAX_DIM;
       for (i_dim = 0; i_dim < T8_ECLASS_MAX_DIM; i_dim++) {
-        out_coords[offset_domain_dim + i_dim] = tree_vertices[offset_domain_dim + i_dim];
+        out_coords[offset_domain_dim + i_dim] = tree_vertices[i_dim];
       }
     }
     break;
-- 
2.43.0


From 221a1f8d03b9c46a603ba9ae082b0249e225e532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:09 +0000
Subject: [PATCH 40/44] fix: axis-aligned geometry of lines and quads reads
 only the reference coordinates of its point

---
 src/t8_geometry/t8_geometry_helpers.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/t8_geometry/t8_geometry_helpers.c b/src/t8_geometry/t8_geometry_helpers.c
index 43063a6..2b4c750 100644
--- a/src/t8_geometry/t8_geometry_helpers.c
+++ b/src/t8_geometry/t8_geometry_helpers.c
@@ -227,9 +227,14 @@ t8_geom_compute_linear_axis_aligned_geometry (const t8_eclass_t tree_class, cons
   for (size_t i_coord = 0; i_coord < num_coords; ++i_coord) {
     const size_t offset_tree_dim = i_coord * dimension;
     const size_t offset_domain_dim = i_coord * T8_ECLASS_MAX_DIM;
+    /* The tree extends along as many axes as it has dimensions. Each of them belongs to one reference coordinate. */
+    int i_ref_dim = 0;
     for (int i_dim = 0; i_dim < T8_ECLASS_MAX_DIM; ++i_dim) {
       out_coords[offset_domain_dim + i_dim] = tree_vertices[i_dim];
-      out_coords[offset_domain_dim + i_dim] += ref_coords[offset_tree_dim + i_dim] * vector[i_dim];
+      if (i_ref_dim < dimension && (dimension == T8_ECLASS_MAX_DIM || fabs (vector[i_dim]) > SC_EPS)) {
+        out_coords[offset_domain_dim + i_dim] += ref_coords[offset_tree_dim + i_ref_dim] * vector[i_dim];
+        ++i_ref_dim;
+      }
     }
   }
 }
-- 
2.43.0


From 07140a71f32349dd97adcee30dafac134b2f4ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:09 +0000
Subject: [PATCH 41/44] fix: cad geometry uses the reference coordinates of
 each point of a batch

---
 .../t8_geometry_cad.cxx                         | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/t8_geometry/t8_geometry_implementations/t8_geometry_cad.cxx b/src/t8_geometry/t8_geometry_implementations/t8_geometry_cad.cxx
index 2c6aac0..187d9ec 100644
--- a/src/t8_geometry/t8_geometry_implementations/t8_geometry_cad.cxx
+++ b/src/t8_geometry/t8_geometry_implementations/t8_geometry_cad.cxx
@@ -107,15 +107,16 @@ t8_geometry_cad::t8_geom_evaluate_jacobian (t8_cmesh_t cmesh, t8_gloidx_t gtreei
   double in1[3], in2[3];
   double out1[3], out2[3];
   for (size_t icoord = 0; icoord < num_coords; icoord++) {
+    const size_t offset = 3 * icoord;
 
     for (int dim = 0; dim < 3; ++dim) {
-      memcpy (in1, ref_coords, sizeof (double) * 3);
-      memcpy (in2, ref_coords, sizeof (double) * 3);
+      memcpy (in1, ref_coords + offset, sizeof (double) * 3);
+      memcpy (in2, ref_coords + offset, sizeof (double) * 3);
 
-      if (ref_coords[dim] < h) {
-        in2[dim] += ref_coords[dim] + h;
+      if (ref_coords[offset + dim] < h) {
+        in2[dim] += ref_coords[offset + dim] + h;
       }
-      else if (ref_coords[dim] > 1 - h) {
+      else if (ref_coords[offset + dim] > 1 - h) {
         in1[dim] -= h;
       }
       else {
@@ -552,17 +553,17 @@ t8_geometry_cad::t8_geom_evaluate_cad_quad (t8_cmesh_t cmesh, t8_gloidx_t gtreei
           /* Interpolate between the surface parameters of the current edge */
           double edge_surface_parameters[4];
           t8_geom_get_face_vertices (active_tree_class, face_parameters, i_edge, 2, edge_surface_parameters);
-          t8_geom_linear_interpolation (&ref_coords[edge_direction], edge_surface_parameters, 2, 1,
+          t8_geom_linear_interpolation (&ref_coords[edge_direction + offset_2d], edge_surface_parameters, 2, 1,
                                         temp_face_parameters);
 
           /* Calculate parameter displacement and add it to the surface parameters */
           for (int dim = 0; dim < 2; ++dim) {
             const double displacement = temp_edge_parameters[dim] - temp_face_parameters[dim];
             if (i_edge & 1) {
-              out_coords[dim + offset_3d] += displacement * (1 - ref_coords[edge_orthogonal_direction]);
+              out_coords[dim + offset_3d] += displacement * (1 - ref_coords[edge_orthogonal_direction + offset_2d]);
             }
             else {
-              out_coords[dim + offset_3d] += displacement * ref_coords[edge_orthogonal_direction];
+              out_coords[dim + offset_3d] += displacement * ref_coords[edge_orthogonal_direction + offset_2d];
             }
           }
         }
-- 
2.43.0


From 3c50be5a1b14f32248fb5264e87095620828ebf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:09 +0000
Subject: [PATCH 42/44] fix: stretched reference coordinates of a batch are
 stored with the stride of the scheme

---
 src/t8_forest/t8_forest.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index ee50a23..91ccd8f 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -438,14 +438,15 @@ t8_forest_element_from_ref_coords_ext (t8_forest_t forest, t8_locidx_t ltreeid,
     T8_ASSERT (geom_type == T8_GEOMETRY_TYPE_LINEAR || geom_type == T8_GEOMETRY_TYPE_LINEAR_AXIS_ALIGNED);
 #endif /* T8_ENABLE_DEBUG */
     const int tree_dim = t8_eclass_to_dimension[tree_class];
-    double stretched_ref_coords[T8_ECLASS_MAX_CORNERS * T8_ECLASS_MAX_DIM];
+    double *stretched_ref_coords = T8_ALLOC_ZERO (double, T8_ECLASS_MAX_DIM * num_coords);
     for (size_t i_coord = 0; i_coord < num_coords; ++i_coord) {
       for (int dim = 0; dim < tree_dim; ++dim) {
-        stretched_ref_coords[i_coord * tree_dim + dim]
-          = 0.5 + ((ref_coords[i_coord * tree_dim + dim] - 0.5) * stretch_factors[dim]);
+        stretched_ref_coords[i_coord * T8_ECLASS_MAX_DIM + dim]
+          = 0.5 + ((ref_coords[i_coord * T8_ECLASS_MAX_DIM + dim] - 0.5) * stretch_factors[dim]);
       }
     }
     scheme->element_get_reference_coords (tree_class, element, stretched_ref_coords, num_coords, tree_ref_coords);
+    T8_FREE (stretched_ref_coords);
   }
   else {
     scheme->element_get_reference_coords (tree_class, element, ref_coords, num_coords, tree_ref_coords);
-- 
2.43.0


From d51c3075d24dd3de2b15b8abf441bb441bfb65cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:55 +0000
Subject: [PATCH 43/44] fix: store the node parameters of a tree completely

---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index 4fa3e8e..c09f078 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -578,7 +578,7 @@ t8_store_element_node_data (t8_cmesh_t cmesh, t8_gloidx_t tree_count,
                           entity_dim_array, T8_ECLASS_MAX_CORNERS * 2 * sizeof (int), 0);
 
   t8_cmesh_set_attribute (cmesh, tree_count, t8_get_package_id (), T8_CMESH_NODE_PARAMETERS_ATTRIBUTE_KEY,
-                          parameter_array, T8_ECLASS_MAX_CORNERS * 2 * sizeof (int), 0);
+                          parameter_array, T8_ECLASS_MAX_CORNERS * 2 * sizeof (double), 0);
 }
 
 #if T8_ENABLE_OCC
-- 
2.43.0


From 3e2084620beedbb15a0bb358969b77fdf25c14c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:33 +0000
Subject: [PATCH 44/44] fix: t8_dtri_is_familypv must reject a set in which any
 one type is wrong

The three type tests were joined with &&, so that a set was only rejected
when all three types were wrong. Children 0, 1, 1, 3 (one child twice) or
0, 2, 1, 3 of a triangle were taken for a family.
---
 src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c b/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c
index 5c2d777..e870145 100644
--- a/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c
@@ -652,7 +652,7 @@ t8_dtri_is_familypv (const t8_dtri_t *f[])
   }
   /* check whether the types are correct */
   const int type = f[0]->type;
-  if (f[1]->type != 0 && f[2]->type != 1 && f[3]->type != type) {
+  if (f[1]->type != 0 || f[2]->type != 1 || f[3]->type != type) {
     return 0;
   }
   /* check whether the coordinates are correct
-- 
2.43.0

