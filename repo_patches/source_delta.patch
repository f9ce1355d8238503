From d5853f6c971b6186b4576e3c771610ea5cc1c28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 01/30] fix: read node sets that carry no distribution factors

A node set without distribution factors was silently treated as empty, so
boundary conditions on it were never applied.
---
 src/nimble_genesis_mesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index a31a3bd..eb13dae 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -176,7 +176,7 @@ GenesisMesh::ReadFile(std::string file_name)
     retval = ex_get_set_param(exodus_file_id, EX_NODE_SET, id, &num_nodes_in_ns, &num_dist_factors_in_ns);
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_param");
     node_sets_[id] = std::vector<int>();
-    if (num_nodes_in_ns > 0 && num_dist_factors_in_ns == num_nodes_in_ns) {
+    if (num_nodes_in_ns > 0) {
       node_sets_[id] = std::vector<int>(num_nodes_in_ns);
       retval         = ex_get_set(exodus_file_id, EX_NODE_SET, id, &node_sets_[id][0], NULL);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set");
@@ -184,7 +184,7 @@ GenesisMesh::ReadFile(std::string file_name)
       for (unsigned int j = 0; j < node_sets_[id].size(); j++) { node_sets_[id][j] -= 1; }
     }
     ns_distribution_factors_[id] = std::vector<double>();
-    if (num_nodes_in_ns > 0) {
+    if (num_dist_factors_in_ns > 0) {
       ns_distribution_factors_[id] = std::vector<double>(num_dist_factors_in_ns);
       retval = ex_get_set_dist_fact(exodus_file_id, EX_NODE_SET, id, &ns_distribution_factors_[id][0]);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_dist_fact");
-- 
2.43.0


From a30dc936316caeafa453295c76aafcb9392d0a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 02/30] fix: apply the kinematic conditions of the initial
 state at the initial time

The initial state was written with prescribed velocities evaluated at t=0
even when the run starts at another time.
---
 src/integrators/explicit_time_integrator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrators/explicit_time_integrator.cc b/src/integrators/explicit_time_integrator.cc
index c3bfa32..9e45e9e 100644
--- a/src/integrators/explicit_time_integrator.cc
+++ b/src/integrators/explicit_time_integrator.cc
@@ -144,7 +144,7 @@ ExplicitTimeIntegrator::Integrate()
 
   watch_simulation.push_region("BC enforcement");
   model_data.ApplyInitialConditions(data_manager);
-  model_data.ApplyKinematicConditions(data_manager, 0.0, 0.0);
+  model_data.ApplyKinematicConditions(data_manager, initial_time, initial_time);
   watch_simulation.pop_region_and_report_time();
 
   data_manager.WriteOutput(time_current);
-- 
2.43.0


From 19c43166e42153cf5710f149be2495cefb2476fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 03/30] fix: end the run when the input deck cannot be read

Parser::ReadFile() looped for ever on a read error and on lines of 1000
characters or more: getline() then fails without ever reaching the end of file.
---
 src/nimble_parser.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index fd63ec9..03e24b0 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -196,7 +196,6 @@ Parser::Initialize()
 void
 Parser::ReadFile()
 {
-  int         max_chars_per_line = 1000;
   std::string delimiter(" ");
 
   std::ifstream fin;
@@ -206,11 +205,8 @@ Parser::ReadFile()
     throw std::invalid_argument(msg);
   }
 
-  while (!fin.eof()) {
-    char buf[max_chars_per_line];
-    fin.getline(buf, max_chars_per_line);
-    std::string line(buf);
-
+  std::string line;
+  while (std::getline(fin, line)) {
     // Strip out comments (# character)
     size_t pound_pos = line.find("#");
     if (pound_pos != std::string::npos) { line = line.substr(0, pound_pos); }
@@ -233,6 +229,10 @@ Parser::ReadFile()
       ParseKeyValue(key, value);
     }
   }
+  if (fin.bad()) {
+    std::string msg = "\n**** Error in Parser::ReadFile(), error while reading file " + file_name_ + "\n";
+    throw std::invalid_argument(msg);
+  }
 }
 
 void
-- 
2.43.0


From ae389d02dda4425c5734c3a763a3b690ac70f89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 04/30] fix: cut gathered data at each rank's own length

mpicontext::gather() advanced the end of every slice by the length of the
previous rank's data, so unequal lengths were delivered wrongly.
---
 src/nimble.mpi.mpicontext.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nimble.mpi.mpicontext.h b/src/nimble.mpi.mpicontext.h
index e4e4e41..eaada3f 100644
--- a/src/nimble.mpi.mpicontext.h
+++ b/src/nimble.mpi.mpicontext.h
@@ -214,11 +214,11 @@ class mpicontext
 
       // Step 3: Copy data from a contiguous block into a vector of vectors.
       std::vector<std::vector<int>> result(this->get_size());
-      int *                         start_iter = destination.data(), *end_iter = destination.data() + recv_counts[0];
+      int*                          start_iter = destination.data();
       for (size_t i = 0; i < result.size(); ++i) {
-        result[i]  = std::vector<int>(start_iter, end_iter);
-        start_iter = end_iter;
-        end_iter += recv_counts[i];
+        int* end_iter = start_iter + recv_counts[i];
+        result[i]     = std::vector<int>(start_iter, end_iter);
+        start_iter    = end_iter;
       }
       // Return result
       return result;
-- 
2.43.0


From ead1710421533ae55f8ddec93a2718c2c5e6a0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 05/30] fix: scatter the data, not the vectors that hold it

mpicontext::scatter() sent the bytes of the std::vector objects and returned
nothing on the root.
---
 src/nimble.mpi.mpicontext.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nimble.mpi.mpicontext.h b/src/nimble.mpi.mpicontext.h
index eaada3f..e7142f4 100644
--- a/src/nimble.mpi.mpicontext.h
+++ b/src/nimble.mpi.mpicontext.h
@@ -250,8 +250,11 @@ class mpicontext
       std::vector<int> source_made_contiguous(std::accumulate(send_counts.begin(), send_counts.end(), 0), 0);
 
       std::partial_sum(send_counts.begin(), send_counts.end() - 1, displacements.data() + 1);
+      for (size_t i = 0; i < send_counts.size(); ++i) {
+        std::copy(source[i].begin(), source[i].end(), source_made_contiguous.begin() + displacements[i]);
+      }
       MPI_Scatterv(
-          source.data(),
+          source_made_contiguous.data(),
           send_counts.data(),
           displacements.data(),
           MPI_INT,
@@ -260,6 +263,7 @@ class mpicontext
           MPI_INT,
           root,
           this->get_comm());
+      return destination;
     } else {
       int recvcount;
       MPI_Scatter(0, 0, MPI_INT, &recvcount, 1, MPI_INT, root, this->get_comm());
@@ -267,7 +271,6 @@ class mpicontext
       MPI_Scatterv(0, 0, 0, MPI_INT, recvbuff.data(), recvcount, MPI_INT, root, this->get_comm());
       return recvbuff;
     }
-    return std::vector<int>();
   }
 
   template <size_t count>
-- 
2.43.0


From 743ea1a2436e34f5a436dbc1f2341bed453229bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 06/30] fix: end all ranks when one leaves on an exception

---
 src/nimble.cc | 13 +++++++++++++
 src/nimble.h  |  1 +
 2 files changed, 14 insertions(+)

diff --git a/src/nimble.cc b/src/nimble.cc
index 560d38f..f341cc5 100644
--- a/src/nimble.cc
+++ b/src/nimble.cc
@@ -130,9 +130,11 @@ NimbleApplication::Run(int argc, char **argv) {
     status = ExecMain();
   } catch (std::exception& e) {
     std::cerr << "Standard exception: " << e.what() << std::endl;
+    AbortAllRanks();
     return 1;
   } catch (...) {
     std::cerr << "\n !!! NimbleSM Simulation did not end correctly !!!\n\n";
+    AbortAllRanks();
     return 1;
   }
 
@@ -236,6 +238,17 @@ Kokkos::initialize(impl_->cli_config_->ArgC(), impl_->cli_config_->ArgV());
     impl_->contact_interface_ = CreateContactInterface();
 }
 
+void NimbleApplication::AbortAllRanks()
+{
+#ifdef NIMBLE_HAVE_MPI
+  // The other ranks would wait forever for one that leaves on an exception
+  int initialized = 0, finalized = 0;
+  MPI_Initialized(&initialized);
+  MPI_Finalized(&finalized);
+  if (initialized && !finalized && NumRanks() > 1) MPI_Abort(MPI_COMM_WORLD, 1);
+#endif
+}
+
 void NimbleApplication::FinalizeSubsystems()
 {
 #ifdef NIMBLE_HAVE_VT
diff --git a/src/nimble.h b/src/nimble.h
index 606d37c..4413fcf 100644
--- a/src/nimble.h
+++ b/src/nimble.h
@@ -89,6 +89,7 @@ class NimbleApplication
 
   void InitializeSubsystems();
   void FinalizeSubsystems();
+  void AbortAllRanks();
   int ExecMain();
   int MainLoop();
 
-- 
2.43.0


From 9879254b19031021fa14cb1448e4f405dc3f2b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 07/30] fix: reject a mesh file that holds less than it
 announces

---
 src/nimble_genesis_mesh.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index eb13dae..7151ded 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -312,6 +312,21 @@ GenesisMesh::ReadFile(std::string file_name)
 
   retval = ex_close(exodus_file_id);
   if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_close");
+
+  // Data missing from a truncated file is read as zeros and not reported as an error
+  auto check_range = [](const std::vector<int>& indices, int upper, const char* what) {
+    for (int index : indices) {
+      if (index < 0 || index >= upper) {
+        NIMBLE_ABORT(std::string("GenesisMesh::ReadFile(), invalid or incomplete ") + what + "!");
+      }
+    }
+  };
+  const int no_limit = std::numeric_limits<int>::max();
+  check_range(node_global_id_, no_limit, "node id map");
+  check_range(elem_global_id_, no_limit, "element id map");
+  for (const auto& node_set : node_sets_) check_range(node_set.second, num_nodes, "node set");
+  for (const auto& conn : block_elem_connectivity_) check_range(conn.second, num_nodes, "element connectivity");
+  if (elem_local_index != num_elem) { NIMBLE_ABORT("GenesisMesh::ReadFile(), incomplete element blocks!"); }
 #endif
 }
 
-- 
2.43.0


From 04df0c4839ad728fe71117085a136e113241d4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 08/30] fix: give every node of the secondary skin to one of
 the ranks that have skin there

---
 src/nimble_contact_manager.cc | 88 +++++++++++++++++++++++++++++++----
 src/nimble_contact_manager.h  |  7 +++
 2 files changed, 87 insertions(+), 8 deletions(-)

diff --git a/src/nimble_contact_manager.cc b/src/nimble_contact_manager.cc
index 49d1c5b..95d2241 100644
--- a/src/nimble_contact_manager.cc
+++ b/src/nimble_contact_manager.cc
@@ -223,19 +223,15 @@ ContactManager::CreateContactEntities(
   RemoveInternalSkinFaces(mesh, primary_skin_faces, primary_skin_entity_ids);
   RemoveInternalSkinFaces(mesh, secondary_skin_faces, secondary_skin_entity_ids);
 
-  // create a list of ghosted nodes (e.g., nodes that are owned by a different
-  // processor)
+  // create a list of ghosted nodes (e.g., nodes on the secondary skin that are
+  // owned by a different processor)
   std::vector<int> partition_boundary_node_local_ids;
   std::vector<int> min_rank_containing_partition_boundary_nodes;
   myVecComm.GetPartitionBoundaryNodeLocalIds(
       partition_boundary_node_local_ids, min_rank_containing_partition_boundary_nodes);
 
-  std::vector<int> ghosted_node_local_ids;
-  for (int i = 0; i < partition_boundary_node_local_ids.size(); i++) {
-    if (min_rank_containing_partition_boundary_nodes[i] != mpi_rank) {
-      ghosted_node_local_ids.push_back(partition_boundary_node_local_ids[i]);
-    }
-  }
+  std::vector<int> ghosted_node_local_ids =
+      FindGhostedSkinNodes(mesh, secondary_skin_faces, partition_boundary_node_local_ids);
 
   // construct containers for the subset of the model that is involved with
   // contact this constitutes a submodel that is stored in the ContactManager
@@ -1040,6 +1036,82 @@ ContactManager::RemoveInternalSkinFaces(
 #endif
 }
 
+// static
+std::vector<int>
+ContactManager::FindGhostedSkinNodes(
+    GenesisMesh const&                   mesh,
+    std::vector<std::vector<int>> const& faces,
+    std::vector<int> const&              partition_boundary_node_local_ids)
+{
+  std::vector<int> ghosted_node_local_ids;
+#ifdef NIMBLE_HAVE_MPI
+
+  int mpi_rank, num_ranks;
+  MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);
+  MPI_Comm_size(MPI_COMM_WORLD, &num_ranks);
+
+  // Skin nodes that are shared with other ranks. The lowest rank that has a node on its
+  // skin owns the contact node; the other holders of the mesh node need not have skin there.
+  const int*          genesis_node_global_ids = mesh.GetNodeGlobalIds();
+  std::set<int> const boundary_nodes(
+      partition_boundary_node_local_ids.begin(), partition_boundary_node_local_ids.end());
+  std::map<int, int> shared_skin_nodes;  // global id to local id
+  for (auto const& face : faces) {
+    for (auto const& id : face) {
+      if (boundary_nodes.count(id) > 0) shared_skin_nodes[genesis_node_global_ids[id]] = id;
+    }
+  }
+  std::vector<int> send_buffer;
+  for (auto const& node : shared_skin_nodes) send_buffer.push_back(node.first);
+  const auto send_size = static_cast<int>(send_buffer.size());
+
+  std::set<int> ghosted;
+  for (int shift = 1; shift < num_ranks; ++shift) {
+    int target = (mpi_rank + shift) % num_ranks;
+    int source = (mpi_rank + num_ranks - shift) % num_ranks;
+    //
+    int recv_size = 0;
+    MPI_Sendrecv(
+        &send_size,
+        1,
+        MPI_INT,
+        target,
+        shift,
+        &recv_size,
+        1,
+        MPI_INT,
+        source,
+        shift,
+        MPI_COMM_WORLD,
+        MPI_STATUS_IGNORE);
+    //
+    std::vector<int> recv_buffer(recv_size);
+    MPI_Sendrecv(
+        send_buffer.data(),
+        send_size,
+        MPI_INT,
+        target,
+        shift,
+        recv_buffer.data(),
+        recv_size,
+        MPI_INT,
+        source,
+        shift,
+        MPI_COMM_WORLD,
+        MPI_STATUS_IGNORE);
+    //
+    if (source > mpi_rank) continue;
+    for (int global_id : recv_buffer) {
+      auto it = shared_skin_nodes.find(global_id);
+      if (it != shared_skin_nodes.end()) ghosted.insert(it->second);
+    }
+  }
+  ghosted_node_local_ids.assign(ghosted.begin(), ghosted.end());
+
+#endif
+  return ghosted_node_local_ids;
+}
+
 template <typename ArgT>
 void
 ContactManager::CreateContactNodesAndFaces(
diff --git a/src/nimble_contact_manager.h b/src/nimble_contact_manager.h
index 2be997a..23cd121 100644
--- a/src/nimble_contact_manager.h
+++ b/src/nimble_contact_manager.h
@@ -256,6 +256,13 @@ class ContactManager
   static void
   RemoveInternalSkinFaces(GenesisMesh const& mesh, std::vector<std::vector<int>>& faces, std::vector<int>& entity_ids);
 
+  /// \brief Find the skin nodes for which a lower rank holds the contact node
+  static std::vector<int>
+  FindGhostedSkinNodes(
+      GenesisMesh const&                   mesh,
+      std::vector<std::vector<int>> const& faces,
+      std::vector<int> const&              partition_boundary_node_local_ids);
+
   // DEPRECATED
   /// \brief Compute the projection of a point onto a triangular face
   ///
-- 
2.43.0


From 6284ca106f6f2919ae1bb53e69229b6d17166c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 09/30] fix: form Tpetra degree-of-freedom ids without integer
 overflow

---
 src/nimble_tpetra_utils.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nimble_tpetra_utils.cc b/src/nimble_tpetra_utils.cc
index d8681e2..93e6ce2 100644
--- a/src/nimble_tpetra_utils.cc
+++ b/src/nimble_tpetra_utils.cc
@@ -91,7 +91,9 @@ TpetraContainer::Initialize(int d, unsigned int n, comm_type comm, std::vector<i
   local_ordinal_type               num_3d_entries = num_nodes * dim_;
   std::vector<global_ordinal_type> my_3d_entries(num_3d_entries);
   for (int i_node = 0; i_node < num_nodes; i_node++) {
-    for (int dof = 0; dof < dim_; dof++) { my_3d_entries[i_node * dim_ + dof] = global_node_ids_[i_node] * dim_ + dof; }
+    for (int dof = 0; dof < dim_; dof++) {
+      my_3d_entries[i_node * dim_ + dof] = static_cast<global_ordinal_type>(global_node_ids_[i_node]) * dim_ + dof;
+    }
   }
   Teuchos::RCP<const map_type> map_3d =
       Teuchos::rcp(new map_type(num_global_elements, my_3d_entries.data(), num_3d_entries, index_base, comm_));
-- 
2.43.0


From f8ab8f1a7d61a850862d7047ad18641e230d6853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 10/30] fix: read side sets without distribution factors

GenesisMesh asked the Exodus library for the distribution factors of every
side set with sides and refused meshes whose side sets have none.
---
 src/nimble_genesis_mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index 7151ded..ec9bc95 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -225,7 +225,7 @@ GenesisMesh::ReadFile(std::string file_name)
       for (unsigned int j = 0; j < side_sets_[id].size(); j++) { side_sets_[id][j] -= 1; }
     }
     ss_distribution_factors_[id] = std::vector<double>();
-    if (num_nodes_in_ss > 0) {
+    if (num_dist_factors_in_ss > 0) {
       ss_distribution_factors_[id] = std::vector<double>(num_dist_factors_in_ss);
       retval = ex_get_set_dist_fact(exodus_file_id, EX_SIDE_SET, id, &ss_distribution_factors_[id][0]);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_dist_fact");
-- 
2.43.0


From 8c4975312dd27f2a362779ef44fe9cc2c7875d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 11/30] fix: report the stable time step of the whole model

Rank 0 reported, and compared with the requested time step, the stable time
step of its own part of the mesh.
---
 src/integrators/explicit_time_integrator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/integrators/explicit_time_integrator.cc b/src/integrators/explicit_time_integrator.cc
index 9e45e9e..b2829bf 100644
--- a/src/integrators/explicit_time_integrator.cc
+++ b/src/integrators/explicit_time_integrator.cc
@@ -123,6 +123,10 @@ ExplicitTimeIntegrator::Integrate()
   model_data.ComputeLumpedMass(data_manager);
 
   double     critical_time_step = model_data.GetCriticalTimeStep();
+#ifdef NIMBLE_HAVE_MPI
+  // every rank knows only the elements of its own part
+  MPI_Allreduce(MPI_IN_PLACE, &critical_time_step, 1, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD);
+#endif
   auto const lumped_mass        = model_data.GetScalarNodeData("lumped_mass");
 
   double initial_time = parser.InitialTime();
-- 
2.43.0


From 348201299f64a7183741fde0b5795dda35731b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 12/30] fix: characteristic length of elements at negative
 coordinates

The bounding box of an element always reached up to zero, so the length was
too large for a flat element at negative coordinates.
---
 src/nimble_element.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_element.cc b/src/nimble_element.cc
index 009ec5d..0067344 100644
--- a/src/nimble_element.cc
+++ b/src/nimble_element.cc
@@ -227,7 +227,7 @@ HexElement::ComputeCharacteristicLength(const double* node_coords)
   double characteristic_length, distance_squared, min_distance_squared, nx, ny, nz, mx, my, mz;
   double x_min, x_max, y_min, y_max, z_min, z_max;
 
-  x_max = y_max = z_max = 0.0;
+  x_max = y_max = z_max = std::numeric_limits<double>::lowest();
   min_distance_squared = x_min = y_min = z_min = std::numeric_limits<double>::max();
 
   for (int n = 0; n < num_nodes_; n++) {
-- 
2.43.0


From dbc1dc4591c35ccfa18d00389653e798ffbd8935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 13/30] fix: refuse a boundary condition on a set that does not
 exist

A condition whose set no part of the mesh names was dropped silently.
---
 src/nimble_boundary_condition_manager.cc | 28 +++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/nimble_boundary_condition_manager.cc b/src/nimble_boundary_condition_manager.cc
index 71656ea..3aa1696 100644
--- a/src/nimble_boundary_condition_manager.cc
+++ b/src/nimble_boundary_condition_manager.cc
@@ -43,8 +43,14 @@
 
 #include "nimble_boundary_condition_manager.h"
 
+#include <stdexcept>
+
 #include "nimble_linear_solver.h"
 
+#ifdef NIMBLE_HAVE_MPI
+#include <mpi.h>
+#endif
+
 namespace nimble {
 
 void
@@ -69,10 +75,30 @@ BoundaryConditionManager::Initialize(
     time_integration_scheme_ = QUASISTATIC;
   }
 
+  std::vector<int> set_exists(bc_strings.size(), 0);
   for (int i = 0; i < bc_strings.size(); i++) {
     BoundaryCondition bc;
     bool              is_valid = bc.Initialize(dim_, bc_strings[i], node_set_names, side_set_names);
-    if (is_valid) { boundary_conditions_.push_back(bc); }
+    if (is_valid) {
+      boundary_conditions_.push_back(bc);
+      set_exists[i] = 1;
+    }
+  }
+
+  // A set may be absent from the part of the mesh on this rank, but not from the parts on all ranks
+#ifdef NIMBLE_HAVE_MPI
+  int mpi_initialized = 0;
+  MPI_Initialized(&mpi_initialized);
+  if (mpi_initialized) {
+    MPI_Allreduce(
+        MPI_IN_PLACE, set_exists.data(), static_cast<int>(set_exists.size()), MPI_INT, MPI_MAX, MPI_COMM_WORLD);
+  }
+#endif
+  for (int i = 0; i < bc_strings.size(); i++) {
+    if (set_exists[i] == 0) {
+      throw std::invalid_argument(
+          "Error processing boundary condition, the set does not exist in the mesh: " + bc_strings[i]);
+    }
   }
 }
 
-- 
2.43.0


From fa67fe4c2aeea85a53a76fc250b93d3dfd1da6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 14/30] fix: refuse a boundary condition without a magnitude

A missing or illegal magnitude was taken as zero, or not set at all.
---
 src/nimble_boundary_condition.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nimble_boundary_condition.cc b/src/nimble_boundary_condition.cc
index e9166c0..9126182 100644
--- a/src/nimble_boundary_condition.cc
+++ b/src/nimble_boundary_condition.cc
@@ -112,6 +112,9 @@ BoundaryCondition::Initialize(
   } else if (num_quotes == 0) {
     has_expression_ = false;
     ss >> magnitude_;  // DJL valgrind complains about this
+    if (ss.fail()) {
+      throw std::invalid_argument("Error processing boundary condition, missing or illegal magnitude: " + bc_string);
+    }
   } else {
     throw std::invalid_argument("Error processing boundary condition, illegal number of quotes: " + bc_string);
   }
-- 
2.43.0


From 0407c1b42a8f35c367baa793af064a873bfd70e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 15/30] fix: refuse material parameters without a numeric value

A parameter without a value made the parser read past the end of the command,
and a value that is no number was taken as zero.
---
 src/nimble_material_factory_base.cc | 8 ++++++++
 src/nimble_parser_util.h            | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/src/nimble_material_factory_base.cc b/src/nimble_material_factory_base.cc
index 673ba91..b917f62 100644
--- a/src/nimble_material_factory_base.cc
+++ b/src/nimble_material_factory_base.cc
@@ -70,6 +70,10 @@ MaterialFactoryBase::ParseMaterialParametersString(const std::string& material_p
 
   NIMBLE_ASSERT(tokens.size() > 1);
 
+  if (tokens.size() % 2 == 0) {
+    throw std::invalid_argument("Missing value in material parameters: '" + material_parameters + "'");
+  }
+
   const std::string material_name = tokens.front();
   auto              token         = tokens.cbegin() + 1;
   auto              tokens_end    = tokens.cend();
@@ -105,6 +109,10 @@ MaterialFactoryBase::ParseMaterialParamsStringToMap(const std::string& material_
   // The first string is the material name, followed by the material properties (key-value pairs)
   NIMBLE_ASSERT(tokens.size() > 1);
 
+  if (tokens.size() % 2 == 0) {
+    throw std::invalid_argument("Missing value in material parameters: '" + material_parameters + "'");
+  }
+
   const std::string material_name = tokens.front();
   auto              token         = tokens.cbegin() + 1;
   auto              tokens_end    = tokens.cend();
diff --git a/src/nimble_parser_util.h b/src/nimble_parser_util.h
index c752d7e..da76e16 100644
--- a/src/nimble_parser_util.h
+++ b/src/nimble_parser_util.h
@@ -47,6 +47,7 @@
 #include <iostream>
 #include <limits>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -93,6 +94,7 @@ string_to_double(const std::string& s)
   ss << s;
   double val = std::numeric_limits<double>::max();
   ss >> val;
+  if (ss.fail()) { throw std::invalid_argument("Illegal number: '" + s + "'"); }
   return val;
 }
 
-- 
2.43.0


From ca0244a6fee71cb28c3c3e2db53364721743052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 16/30] fix: refuse commands whose number is not one

Times and step counts that are no numbers were taken as zero.
---
 src/nimble_parser.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index 03e24b0..dec4454 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -275,17 +275,17 @@ Parser::ParseKeyValue(const std::string& key, const std::string& value)
   } else if (key == "time integration scheme") {
     time_integration_scheme_ = value;
   } else if (key == "nonlinear solver relative tolerance") {
-    nonlinear_solver_relative_tolerance_ = std::atof(value.c_str());
+    nonlinear_solver_relative_tolerance_ = std::stod(value);
   } else if (key == "nonlinear solver maximum iterations") {
-    nonlinear_solver_max_iterations_ = std::atoi(value.c_str());
+    nonlinear_solver_max_iterations_ = std::stoi(value);
   } else if (key == "initial time") {
-    initial_time_ = std::atof(value.c_str());
+    initial_time_ = std::stod(value);
   } else if (key == "final time") {
-    final_time_ = std::atof(value.c_str());
+    final_time_ = std::stod(value);
   } else if (key == "number of load steps") {
-    num_load_steps_ = std::atoi(value.c_str());
+    num_load_steps_ = std::stoi(value);
   } else if (key == "output frequency") {
-    output_frequency_ = std::atoi(value.c_str());
+    output_frequency_ = std::stoi(value);
   } else if (key == "contact") {
     contact_string_ = value;
   } else if (key == "contact backend") {
@@ -327,7 +327,7 @@ Parser::ParseKeyValue(const std::string& key, const std::string& value)
   } else if (key == "output fields") {
     output_field_string_ = value;
   } else if (key == "contact dicing") {
-    int tmp = std::atoi(value.c_str());
+    int tmp = std::stoi(value);
 #ifdef NIMBLE_HAVE_BVH
     contact_dicing_ = tmp;
 #else
-- 
2.43.0


From 7b312b7e5f57b7236aaf2551e1663e0d2aecd32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 17/30] fix: refuse contact without a penalty parameter value

---
 src/nimble_contact_manager.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nimble_contact_manager.cc b/src/nimble_contact_manager.cc
index 95d2241..015572e 100644
--- a/src/nimble_contact_manager.cc
+++ b/src/nimble_contact_manager.cc
@@ -146,6 +146,9 @@ ParseContactCommand(
   }
 
   ss >> penalty_parameter;
+  if (ss.fail()) {
+    throw std::invalid_argument("\n**** Error processing contact command, missing or illegal penalty parameter.\n");
+  }
 }
 
 std::shared_ptr<nimble::ContactManager>
-- 
2.43.0


From f51d3db2f9095055e02d79ba440642ff0f7469eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 18/30] fix: accept input lines that consist of blanks

Such a line, or an indented comment, ended the run with an exception.
---
 src/nimble_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index dec4454..cf393ff 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -214,7 +214,7 @@ Parser::ReadFile()
     if (line.size() > 0) {
       size_t start_pos = line.find_first_not_of(" \t");
       size_t end_pos   = line.find_last_not_of(" \t");
-      line             = line.substr(start_pos, end_pos - start_pos + 1);
+      line             = (start_pos == std::string::npos) ? "" : line.substr(start_pos, end_pos - start_pos + 1);
     }
 
     if (line.size() > 0) {
-- 
2.43.0


From 4194ce55980190c83d96c7e58d23444df49f2b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 19/30] fix: accept several blanks in an element block command

---
 src/nimble_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index cf393ff..17609f7 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -160,7 +160,7 @@ BlockProperties::BlockProperties(std::string props) : block_id_(-1)
 {
   size_t space_pos                 = props.find(" ");
   block_name_                      = props.substr(0, space_pos);
-  material_key_                    = props.substr(space_pos + 1, props.size());
+  material_key_                    = props.substr(props.find_first_not_of(" ", space_pos));
   size_t            underscore_pos = block_name_.rfind("_");
   std::string       block_id_str   = block_name_.substr(underscore_pos + 1, block_name_.size());
   std::stringstream ss;
-- 
2.43.0


From bb58d4c0aaca06527157bab58849903d353586af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:19 +0000
Subject: [PATCH 20/30] fix: refuse contact with a block that does not exist

---
 src/integrators/explicit_time_integrator.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/integrators/explicit_time_integrator.cc b/src/integrators/explicit_time_integrator.cc
index b2829bf..f14eaba 100644
--- a/src/integrators/explicit_time_integrator.cc
+++ b/src/integrators/explicit_time_integrator.cc
@@ -87,6 +87,19 @@ ExplicitTimeIntegrator::Integrate()
     std::vector<int> contact_primary_block_ids, contact_secondary_block_ids;
     mesh.BlockNamesToOnProcessorBlockIds(contact_primary_block_names, contact_primary_block_ids);
     mesh.BlockNamesToOnProcessorBlockIds(contact_secondary_block_names, contact_secondary_block_ids);
+    // A block may be absent from the part of the mesh on this rank, but not from the parts on all ranks
+    std::vector<std::string> contact_block_names(contact_primary_block_names);
+    contact_block_names.insert(
+        contact_block_names.end(), contact_secondary_block_names.begin(), contact_secondary_block_names.end());
+    for (auto const& name : contact_block_names) {
+      int block_exists = mesh.HasBlock(name) ? 1 : 0;
+#ifdef NIMBLE_HAVE_MPI
+      MPI_Allreduce(MPI_IN_PLACE, &block_exists, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
+#endif
+      if (block_exists == 0) {
+        throw std::invalid_argument("\n**** Error processing contact command, block not found: " + name + "\n");
+      }
+    }
     contact_manager->SetPenaltyParameter(penalty_parameter);
     contact_manager->CreateContactEntities(
         mesh, *myVectorCommunicator, contact_primary_block_ids, contact_secondary_block_ids);
-- 
2.43.0


From dce933c66d3c0bfe2b8da06bdec838d935401db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:38 +0000
Subject: [PATCH 21/30] fix: refuse numbers followed by other characters

---
 src/nimble_boundary_condition.cc |  4 +++-
 src/nimble_contact_manager.cc    |  3 ++-
 src/nimble_parser.cc             | 20 ++++++++++----------
 src/nimble_parser_util.h         | 20 +++++++++++++++++++-
 4 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/nimble_boundary_condition.cc b/src/nimble_boundary_condition.cc
index 9126182..87c1f2e 100644
--- a/src/nimble_boundary_condition.cc
+++ b/src/nimble_boundary_condition.cc
@@ -47,6 +47,8 @@
 #include <sstream>
 #include <stdexcept>
 
+#include "nimble_parser_util.h"
+
 namespace nimble {
 
 namespace {
@@ -112,7 +114,7 @@ BoundaryCondition::Initialize(
   } else if (num_quotes == 0) {
     has_expression_ = false;
     ss >> magnitude_;  // DJL valgrind complains about this
-    if (ss.fail()) {
+    if (ss.fail() || !at_end(ss)) {
       throw std::invalid_argument("Error processing boundary condition, missing or illegal magnitude: " + bc_string);
     }
   } else {
diff --git a/src/nimble_contact_manager.cc b/src/nimble_contact_manager.cc
index 015572e..abfa632 100644
--- a/src/nimble_contact_manager.cc
+++ b/src/nimble_contact_manager.cc
@@ -50,6 +50,7 @@
 #include "nimble_genesis_mesh.h"
 #include "nimble_macros.h"
 #include "nimble_parser.h"
+#include "nimble_parser_util.h"
 #include "nimble_utils.h"
 #include "nimble_vector_communicator.h"
 
@@ -146,7 +147,7 @@ ParseContactCommand(
   }
 
   ss >> penalty_parameter;
-  if (ss.fail()) {
+  if (ss.fail() || !at_end(ss)) {
     throw std::invalid_argument("\n**** Error processing contact command, missing or illegal penalty parameter.\n");
   }
 }
diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index 17609f7..3d4cb86 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -43,6 +43,8 @@
 
 #include "nimble_parser.h"
 
+#include "nimble_parser_util.h"
+
 #include <algorithm>
 #include <cstdlib>
 #include <cstring>
@@ -163,9 +165,7 @@ BlockProperties::BlockProperties(std::string props) : block_id_(-1)
   material_key_                    = props.substr(props.find_first_not_of(" ", space_pos));
   size_t            underscore_pos = block_name_.rfind("_");
   std::string       block_id_str   = block_name_.substr(underscore_pos + 1, block_name_.size());
-  std::stringstream ss;
-  ss << block_id_str;
-  ss >> block_id_;
+  block_id_                        = string_to_int(block_id_str);
 }
 
 Parser::Parser()
@@ -275,17 +275,17 @@ Parser::ParseKeyValue(const std::string& key, const std::string& value)
   } else if (key == "time integration scheme") {
     time_integration_scheme_ = value;
   } else if (key == "nonlinear solver relative tolerance") {
-    nonlinear_solver_relative_tolerance_ = std::stod(value);
+    nonlinear_solver_relative_tolerance_ = string_to_double(value);
   } else if (key == "nonlinear solver maximum iterations") {
-    nonlinear_solver_max_iterations_ = std::stoi(value);
+    nonlinear_solver_max_iterations_ = string_to_int(value);
   } else if (key == "initial time") {
-    initial_time_ = std::stod(value);
+    initial_time_ = string_to_double(value);
   } else if (key == "final time") {
-    final_time_ = std::stod(value);
+    final_time_ = string_to_double(value);
   } else if (key == "number of load steps") {
-    num_load_steps_ = std::stoi(value);
+    num_load_steps_ = string_to_int(value);
   } else if (key == "output frequency") {
-    output_frequency_ = std::stoi(value);
+    output_frequency_ = string_to_int(value);
   } else if (key == "contact") {
     contact_string_ = value;
   } else if (key == "contact backend") {
@@ -327,7 +327,7 @@ Parser::ParseKeyValue(const std::string& key, const std::string& value)
   } else if (key == "output fields") {
     output_field_string_ = value;
   } else if (key == "contact dicing") {
-    int tmp = std::stoi(value);
+    int tmp = string_to_int(value);
 #ifdef NIMBLE_HAVE_BVH
     contact_dicing_ = tmp;
 #else
diff --git a/src/nimble_parser_util.h b/src/nimble_parser_util.h
index da76e16..c1c210b 100644
--- a/src/nimble_parser_util.h
+++ b/src/nimble_parser_util.h
@@ -87,6 +87,13 @@ tokenize_string(const std::string& s)
   return tokens;
 }
 
+// Whether nothing but whitespace is left in the stream
+inline bool
+at_end(std::istream& is)
+{
+  return is.eof() || (is >> std::ws).eof();
+}
+
 inline double
 string_to_double(const std::string& s)
 {
@@ -94,7 +101,18 @@ string_to_double(const std::string& s)
   ss << s;
   double val = std::numeric_limits<double>::max();
   ss >> val;
-  if (ss.fail()) { throw std::invalid_argument("Illegal number: '" + s + "'"); }
+  if (ss.fail() || !at_end(ss)) { throw std::invalid_argument("Illegal number: '" + s + "'"); }
+  return val;
+}
+
+inline int
+string_to_int(const std::string& s)
+{
+  std::stringstream ss;
+  ss << s;
+  int val = std::numeric_limits<int>::max();
+  ss >> val;
+  if (ss.fail() || !at_end(ss)) { throw std::invalid_argument("Illegal integer: '" + s + "'"); }
   return val;
 }
 
-- 
2.43.0


From 5da0fc0e6d8b92fb246114b85c108764f6134a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:38 +0000
Subject: [PATCH 22/30] fix: refuse boundary conditions with text beside the
 expression

---
 src/nimble_boundary_condition.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nimble_boundary_condition.cc b/src/nimble_boundary_condition.cc
index 87c1f2e..407c105 100644
--- a/src/nimble_boundary_condition.cc
+++ b/src/nimble_boundary_condition.cc
@@ -109,6 +109,9 @@ BoundaryCondition::Initialize(
     has_expression_    = true;
     size_t first_pos   = bc_string.find('"');
     size_t last_pos    = bc_string.rfind('"');
+    if ((ss >> std::ws).peek() != '"' || bc_string.find_first_not_of(" \t\r", last_pos + 1) != std::string::npos) {
+      throw std::invalid_argument("Error processing boundary condition, text beside the expression: " + bc_string);
+    }
     expression_string_ = bc_string.substr(first_pos + 1, last_pos - first_pos - 1);
     expression_        = ExpressionParsing::BoundaryConditionFunctor(expression_string_);
   } else if (num_quotes == 0) {
-- 
2.43.0


From af131b15a8c274dc91112016f8ffdf29852f3a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:38 +0000
Subject: [PATCH 23/30] fix: keep what only looks like an extension inside a
 file name

---
 src/nimble_parser.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index 3d4cb86..feeea59 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -67,10 +67,11 @@ IOFileName(
   if (serial_name == "none") { return serial_name; }
 
   std::string file_name = serial_name;
-  size_t      pos       = file_name.rfind(".g");
-  if (pos != std::string::npos) { file_name = file_name.substr(0, pos); }
-  pos = file_name.rfind(".e");
-  if (pos != std::string::npos) { file_name = file_name.substr(0, pos); }
+  // Strip off the extension, but not what only looks like one inside the name
+  if (file_name.size() > 2) {
+    std::string const suffix = file_name.substr(file_name.size() - 2);
+    if (suffix == ".g" || suffix == ".e") { file_name.resize(file_name.size() - 2); }
+  }
   if (!label.empty()) { file_name += "." + label; }
   file_name += "." + extension;
   if (num_ranks > 1) {
-- 
2.43.0


From f85ad80ca4cfbf21864bb934dd9364f4d9d76710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:52 +0000
Subject: [PATCH 24/30] fix: refuse traction conditions, which have no effect

---
 src/nimble_boundary_condition.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nimble_boundary_condition.cc b/src/nimble_boundary_condition.cc
index 407c105..ccd186e 100644
--- a/src/nimble_boundary_condition.cc
+++ b/src/nimble_boundary_condition.cc
@@ -86,7 +86,8 @@ BoundaryCondition::Initialize(
   } else if (bc_type_string == "prescribed_displacement") {
     bc_type_ = PRESCRIBED_DISPLACEMENT;
   } else if (bc_type_string == "prescribed_traction") {
-    bc_type_ = PRESCRIBED_TRACTION;
+    // BoundaryConditionManager::ApplyTractionBC() applies nothing so far
+    throw std::invalid_argument("Error processing boundary condition, prescribed_traction is not implemented.");
   } else {
     throw std::invalid_argument(
         "Error processing boundary condition, unknown boundary condition "
-- 
2.43.0


From 067d17f1866521a05159d173564284ef98526da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:12 +0000
Subject: [PATCH 25/30] fix: subtract in expressions with signs or exponents
 further right

---
 src/nimble_expression_parser.cc | 14 ++++++++++++++
 src/nimble_expression_parser.h  | 33 ++++++++++++++++++++-------------
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/nimble_expression_parser.cc b/src/nimble_expression_parser.cc
index 14e65fb..e80ffd4 100644
--- a/src/nimble_expression_parser.cc
+++ b/src/nimble_expression_parser.cc
@@ -122,6 +122,20 @@ ExpressionParsing::IsNumber(ExpressionParsing::Reader r)
   return true;
 }
 
+// Whether the sign at r.pos adds or subtracts, that is, follows an operand and
+// is not part of a number, as in 2e-3
+bool
+ExpressionParsing::IsBinarySign(const ExpressionParsing::Reader& r)
+{
+  unsigned int p = r.pos;
+  while (p > 0 && r.first[p - 1] == ' ') p--;
+  if (p == 0) return false;
+  char c = r.first[p - 1];
+  if (c == '+' || c == '-' || c == '*' || c == '/' || c == '^') return false;
+  if (c == 'e' && p == r.pos && p > 1 && (IsDigit(r.first[p - 2]) || r.first[p - 2] == '.')) return false;
+  return true;
+}
+
 void
 ExpressionParsing::ConvertStringToLowercase(std::string& s)
 {
diff --git a/src/nimble_expression_parser.h b/src/nimble_expression_parser.h
index 02b4274..5263dbc 100644
--- a/src/nimble_expression_parser.h
+++ b/src/nimble_expression_parser.h
@@ -507,6 +507,9 @@ IsInteger(Reader r);
 bool
 IsNumber(Reader r);
 
+bool
+IsBinarySign(const Reader& r);
+
 void
 ConvertStringToLowercase(std::string& s);
 
@@ -581,6 +584,19 @@ class EquationContext
     }
     return 0;
   }
+  // Moves to the last sign outside parentheses which adds or subtracts
+  bool
+  FindLastSign(Reader& r, char sign)
+  {
+    bool found = r << sign;
+    while (found && !IsBinarySign(r)) {
+      unsigned int end = r.length;
+      r.length         = r.pos;  // Looks further to the left
+      found            = !r.IsEmpty() && r << sign;
+      r.length         = end;
+    }
+    return found;
+  }
   RealValuedExpression*
   ParseOperation(Reader r)
   {
@@ -598,21 +614,12 @@ class EquationContext
     if (r << '%')
       return mem.New<DoubleMod>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
 
-    if (r << '+')
+    if (FindLastSign(r, '+'))
       return mem.New<DoubleAdd>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
 
-    if (r << '-') {
-      // We need to ensure that we found a minus sign and not a value negation
-      while (r.pos > 0 && (r.first[r.pos] == '-' || r.first[r.pos] == ' ')) r.pos--;
-      if (r.pos > 0 || r.first[r.pos] != '-') {
-        char c = r.first[r.pos];
-        if (c != '*' && c != '/' && c != '^' && c != 'e' && c != '=' && c != '<' && c != '~' && c != '>') {
-          while (r.first[r.pos] != '-') r.pos++;  // Moves it back to the last minus sign
-          return mem.New<DoubleSubtract>(
-              ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
-        }
-      }
-    }
+    // We need to ensure that we found a minus sign and not a value negation
+    if (FindLastSign(r, '-'))
+      return mem.New<DoubleSubtract>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
 
     if (r << '*')
       return mem.New<DoubleMultiply>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
-- 
2.43.0


From 5497fdef6f63edc61dfb6ce9f38c39569761ce58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:12 +0000
Subject: [PATCH 26/30] fix: take the power before the negation, as in -x^2

---
 src/nimble_expression_parser.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nimble_expression_parser.h b/src/nimble_expression_parser.h
index 5263dbc..64e6198 100644
--- a/src/nimble_expression_parser.h
+++ b/src/nimble_expression_parser.h
@@ -627,6 +627,8 @@ class EquationContext
     if (r << '/')
       return mem.New<DoubleDivide>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
 
+    if (*r.first == '-') { return mem.New<GenericNeg<double, double>>(ParseEquation(r.sub(1, r.length))); }
+
     if (r >> '^') {
       RealValuedExpression* base       = ParseEquation(r.sub(r.first, r.pos));
       Reader                power_text = r.sub(r.pos + 1, r.length);
@@ -637,8 +639,6 @@ class EquationContext
         return mem.New<DoublePow>(base, ParseEquation(power_text));
     }
 
-    if (*r.first == '-') { return mem.New<GenericNeg<double, double>>(ParseEquation(r.sub(1, r.length))); }
-
     return 0;
   }
 
-- 
2.43.0


From 96e609aed75678da746bb84a8a2ab9bd038ef570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:12 +0000
Subject: [PATCH 27/30] fix: allow blanks inside parentheses in expressions

---
 src/nimble_expression_parser.cc | 10 +++++++---
 src/nimble_expression_parser.h  |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/nimble_expression_parser.cc b/src/nimble_expression_parser.cc
index e80ffd4..268e9f6 100644
--- a/src/nimble_expression_parser.cc
+++ b/src/nimble_expression_parser.cc
@@ -179,9 +179,13 @@ ExpressionParsing::RemoveRedundantParenthesis(ExpressionParsing::Reader& text)
 void
 ExpressionParsing::ApplyNecessaryFormatting(ExpressionParsing::Reader& text)
 {
-  if (text.IsEmpty()) return;
-  RemoveWhitespace(text);
-  RemoveRedundantParenthesis(text);
+  unsigned int length;
+  do {
+    if (text.IsEmpty()) return;
+    length = text.length;
+    RemoveWhitespace(text);
+    RemoveRedundantParenthesis(text);
+  } while (text.length != length);
 }
 
 ExpressionParsing::RealValuedExpression*
diff --git a/src/nimble_expression_parser.h b/src/nimble_expression_parser.h
index 64e6198..bf52dac 100644
--- a/src/nimble_expression_parser.h
+++ b/src/nimble_expression_parser.h
@@ -661,7 +661,7 @@ class EquationContext
       return mem.New<GenericAnd<bool, bool, bool>>(
           ParseBooleanExpression(r.sub(r.first, r.pos)), ParseBooleanExpression(r.sub(r.pos + 1, r.length)));
 
-    if (r << '!') return mem.New<GenericNot<bool, bool>>(ParseBooleanExpression(r.sub(r.first + 1, r.length)));
+    if (r << '!') return mem.New<GenericNot<bool, bool>>(ParseBooleanExpression(r.sub(r.first + 1, r.length - 1)));
 
     if (r << '>') {
       if (r.first[r.pos + 1] == '=')
-- 
2.43.0


From 583bf3048b1f48fad4342806de05587cb075a326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:31 +0000
Subject: [PATCH 28/30] fix: report progress after the step it counts

---
 src/integrators/explicit_time_integrator.cc | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/integrators/explicit_time_integrator.cc b/src/integrators/explicit_time_integrator.cc
index f14eaba..7c23ca3 100644
--- a/src/integrators/explicit_time_integrator.cc
+++ b/src/integrators/explicit_time_integrator.cc
@@ -192,15 +192,6 @@ ExplicitTimeIntegrator::Integrate()
   std::map<int, std::size_t> contactInfo;
 
   for (int step = 0; step < num_load_steps; step++) {
-    if (my_rank == 0) {
-      if (10 * (step + 1) % num_load_steps == 0 && step != num_load_steps - 1) {
-        std::cout << "   " << static_cast<int>(100.0 * static_cast<double>(step + 1) / num_load_steps) << "% complete"
-        << std::endl
-        << std::flush;
-      } else if (step == num_load_steps - 1) {
-        std::cout << "  100% complete\n" << std::endl << std::flush;
-      }
-    }
     bool is_output_step = false;
     if (output_frequency != 0) {
       if (step % output_frequency == 0 || step == num_load_steps - 1) { is_output_step = true; }
@@ -292,6 +283,16 @@ ExplicitTimeIntegrator::Integrate()
     }  // if (is_output_step)
 
     model_data.UpdateStates(data_manager);
+
+    if (my_rank == 0) {
+      if (10 * (step + 1) % num_load_steps == 0 && step != num_load_steps - 1) {
+        std::cout << "   " << static_cast<int>(100.0 * static_cast<double>(step + 1) / num_load_steps) << "% complete"
+        << std::endl
+        << std::flush;
+      } else if (step == num_load_steps - 1) {
+        std::cout << "  100% complete\n" << std::endl << std::flush;
+      }
+    }
   }
   double total_simulation_time = watch_simulation.pop_region_and_report_time();
 
-- 
2.43.0


From 6109db1ddb91273e5f0728215797c882a7167e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:55 +0000
Subject: [PATCH 29/30] fix: keep blanks in the names of the files of parts

---
 src/nimble_parser.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index feeea59..74ac03e 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -84,8 +84,7 @@ IOFileName(
     ss << file_name << "." << num_ranks << ".";
     for (int i = 0; i < num_zero_padding; i++) { ss << 0; }
     ss << my_rank;
-    // file_name += ss.str(); // DJL not thread safe??
-    ss >> file_name;
+    file_name = ss.str();
   }
   return file_name;
 }
-- 
2.43.0


From 4b3b5e5829197320995b14439192fdb372fe368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:01 +0000
Subject: [PATCH 30/30] fix: say so when the timing data file cannot be written

---
 src/nimble_timing_utils.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nimble_timing_utils.cc b/src/nimble_timing_utils.cc
index 7c495c1..b9ee047 100644
--- a/src/nimble_timing_utils.cc
+++ b/src/nimble_timing_utils.cc
@@ -90,6 +90,10 @@ TimingInfo::BinaryWrite() const
     fs << timingdatastr;
     fs.flush();
     fs.close();
+    if (!fs) {
+      std::cerr << "Failed to write timing data file"
+                << " (" << timingfilenamestr << ") " << std::endl;
+    }
   }
 }
 
-- 
2.43.0

