From bfef86648e87f4fa10c088bb1472db96217535f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:00 +0000
Subject: [PATCH 01/22] fix: Grid_Length::set must reject lengths whose number
 of cells overflows uint64_t

The number of level 0 cells is the product of the lengths, not their sum, so
lengths whose cell ids do not fit into 64 bits were accepted.
---
 dccrg_length.hpp | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/dccrg_length.hpp b/dccrg_length.hpp
index 5eabe29..ed7dfdd 100644
--- a/dccrg_length.hpp
+++ b/dccrg_length.hpp
@@ -108,28 +108,21 @@ public:
 			return false;
 		}
 
-		const Grid_Length::type old_length = this->length;
-
-		this->length = given_length;
-
-		const double max_number_of_initial_cells
-			= double(this->length[0])
-			+ double(this->length[1])
-			+ double(this->length[2]);
-
-		if (max_number_of_initial_cells > double(~uint64_t(0))) {
+		const uint64_t max_cells = ~uint64_t(0);
+		if (
+			given_length[1] > max_cells / given_length[0]
+			|| given_length[2] > max_cells / given_length[0] / given_length[1]
+		) {
 			std::cerr
 				<< "Grid would have too many cells of refinement level 0 for uint64_t: "
-				<< max_number_of_initial_cells
-				<< " (length_x, length_y, length_z: "
-				<< this->length[0] << " " << this->length[1] << " " << this->length[2]
-				<< ")"
+				<< "length_x, length_y, length_z: "
+				<< given_length[0] << " " << given_length[1] << " " << given_length[2]
 				<< std::endl;
-
-			this->length = old_length;
 			return false;
 		}
 
+		this->length = given_length;
+
 		return true;
 	}
 
-- 
2.43.0


From c73a9fdb15cb8475d2de07edc3995ddff7f356f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:00 +0000
Subject: [PATCH 02/22] fix: Mapping must not accept a maximum refinement level
 whose ids overflow or that is negative

Largest possible level was calculated in double precision, so a level whose
last cell id is slightly above 2^64 was accepted and ids wrapped around.
Negative levels were accepted and gave a mapping without any valid cells.
---
 dccrg_mapping.hpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/dccrg_mapping.hpp b/dccrg_mapping.hpp
index 5c20904..aab8c61 100644
--- a/dccrg_mapping.hpp
+++ b/dccrg_mapping.hpp
@@ -136,7 +136,10 @@ public:
 	*/
 	bool set_maximum_refinement_level(const int given_refinement_level)
 	{
-		if (given_refinement_level <= this->get_maximum_possible_refinement_level()) {
+		if (
+			given_refinement_level >= 0
+			and given_refinement_level <= this->get_maximum_possible_refinement_level()
+		) {
 			this->max_refinement_level = given_refinement_level;
 			this->update_last_cell();
 			return true;
@@ -318,15 +321,22 @@ public:
 	{
 		const uint64_t grid_length
 			= this->length.get()[0] * this->length.get()[1] * this->length.get()[2];
-		int refinement_level = 0;
-		double current_last = 0;
-		while (current_last <= double(~uint64_t(0))) {
-			// TODO: don't assume 3 dimensions
-			current_last += double(grid_length) * pow(double(8), double(refinement_level));
+		const uint64_t max_id = ~uint64_t(0);
+
+		int refinement_level = -1;
+		uint64_t level_cells = grid_length, current_last = 0;
+		while (level_cells <= max_id - current_last) {
+			current_last += level_cells;
 			refinement_level++;
+
+			// TODO: don't assume 3 dimensions
+			if (level_cells > max_id / 8) {
+				break;
+			}
+			level_cells *= 8;
 		}
 
-		return refinement_level - 2;
+		return refinement_level;
 	}
 
 
-- 
2.43.0


From 80896a7664bc218004eabcd38d576923c6d051b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:19 +0000
Subject: [PATCH 03/22] fix: Mapping::get_all_children of an invalid cell must
 return only error_cells

Indices of an invalid cell wrapped around so that a valid cell was returned
as the last child of any id larger than the last cell.
---
 dccrg_mapping.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dccrg_mapping.hpp b/dccrg_mapping.hpp
index aab8c61..a52257c 100644
--- a/dccrg_mapping.hpp
+++ b/dccrg_mapping.hpp
@@ -412,7 +412,10 @@ public:
 
 		// given cell cannot have children
 		int refinement_level = this->get_refinement_level(cell);
-		if (refinement_level >= this->get_maximum_refinement_level()) {
+		if (
+			refinement_level < 0
+			or refinement_level >= this->get_maximum_refinement_level()
+		) {
 			return children;
 		}
 
-- 
2.43.0


From 136fabfefd4684f485abcc7d91a459d7b97198e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:51 +0000
Subject: [PATCH 04/22] fix: copy of a Mapping must not refer to the length of
 the original

---
 dccrg_mapping.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dccrg_mapping.hpp b/dccrg_mapping.hpp
index a52257c..25678da 100644
--- a/dccrg_mapping.hpp
+++ b/dccrg_mapping.hpp
@@ -95,6 +95,16 @@ public:
 		this->update_last_cell();
 	}
 
+	/*!
+	Creates a copy which doesn't refer to any data of the given mapping.
+	*/
+	Mapping(const Mapping& other) :
+		length_rw(other.length_rw),
+		length(length_rw),
+		max_refinement_level(other.max_refinement_level),
+		last_cell(other.last_cell)
+	{}
+
 
 	/*!
 	Sets the grid to a default constructed state.
-- 
2.43.0


From 3ed86a1bd450b7ed9069ed0876676f906b8beb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:14 +0000
Subject: [PATCH 05/22] fix: Stretched_Cartesian_Geometry::get_indices must
 handle grid start and periodic dimensions

---
 dccrg_stretched_cartesian_geometry.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dccrg_stretched_cartesian_geometry.hpp b/dccrg_stretched_cartesian_geometry.hpp
index c27f700..2f6a45b 100644
--- a/dccrg_stretched_cartesian_geometry.hpp
+++ b/dccrg_stretched_cartesian_geometry.hpp
@@ -555,7 +555,7 @@ public:
 	dimension if the grid is not periodic in that dimension.
 	*/
 	Types<3>::indices_t get_indices(
-		const std::array<double, 3>& coordinate
+		const std::array<double, 3>& given_coordinate
 	) const {
 		Types<3>::indices_t ret_val = {{
 			error_index,
@@ -565,7 +565,8 @@ public:
 
 		const std::array<double, 3>
 			grid_start = this->get_start(),
-			grid_end = this->get_end();
+			grid_end = this->get_end(),
+			coordinate = this->get_real_coordinate(given_coordinate);
 
 		const int max_ref_lvl = this->mapping.get_maximum_refinement_level();
 		const uint64_t level_0_length_in_indices = uint64_t(1) << max_ref_lvl;
@@ -582,7 +583,9 @@ public:
 				while (current_coords[coord_start_index] < coordinate[dimension]) {
 					coord_start_index++;
 				}
-				coord_start_index--;
+				if (coord_start_index > 0) {
+					coord_start_index--;
+				}
 
 				// length of an index in this level 0 cell
 				const double length_of_index
@@ -597,7 +600,9 @@ public:
 				) {
 					index_offset++;
 				}
-				index_offset--;
+				if (index_offset > 0) {
+					index_offset--;
+				}
 
 				ret_val[dimension] = coord_start_index * level_0_length_in_indices + index_offset;
 			}
-- 
2.43.0


From 750152e6bb5c050fe6f1b5213b458465c09af216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:15 +0000
Subject: [PATCH 06/22] fix: get_remote_neighbors_of and
 get_remote_neighbors_to did not compile when used

---
 dccrg.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 8ae2ee8..1efd46b 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -3256,12 +3256,14 @@ public:
 			return ret_val;
 		}
 
-		const std::vector<uint64_t>& neighbors_ref
+		const auto& neighbors_ref
 			= (neighborhood_id == default_neighborhood_id)
 			? this->neighbors_of.at(cell)
 			: this->user_neigh_of.at(neighborhood_id).at(cell);
 
-		for(const auto& neighbor: neighbors_ref) {
+		for(const auto& neighbor_item: neighbors_ref) {
+
+			const uint64_t neighbor = neighbor_item.first;
 
 			if (neighbor == error_cell) {
 				continue;
@@ -3317,12 +3319,14 @@ public:
 			return ret_val;
 		}
 
-		const std::vector<uint64_t>& neighbors_ref
+		const auto& neighbors_ref
 			= (neighborhood_id == default_neighborhood_id)
 			? this->neighbors_to.at(cell)
 			: this->user_neigh_to.at(neighborhood_id).at(cell);
 
-		for(const auto& neighbor: neighbors_ref) {
+		for(const auto& neighbor_item: neighbors_ref) {
+
+			const uint64_t neighbor = neighbor_item.first;
 
 			if (neighbor == error_cell) {
 				continue;
-- 
2.43.0


From 235554b92d2afbad638d47804adeaf071e1286bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:35 +0000
Subject: [PATCH 07/22] fix: update_copies_of_remote_neighbors must return true
 for default neighborhood and false for an unknown one

---
 dccrg.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 1efd46b..0a45110 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -998,8 +998,11 @@ public:
 
 		bool ret_val = true;
 
-		if (this->user_hood_of.count(neighborhood_id) == 0) {
-			ret_val = false;
+		if (
+			neighborhood_id != default_neighborhood_id
+			and this->user_hood_of.count(neighborhood_id) == 0
+		) {
+			return false;
 		}
 
 		if (!this->start_remote_neighbor_copy_updates(neighborhood_id)) {
-- 
2.43.0


From e51e84e35800b691a07cd2bb99a9244abd76d51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:36 +0000
Subject: [PATCH 08/22] fix: balance_load must not abort when Zoltan returns a
 valid partition with a warning

---
 dccrg.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 0a45110..dfbdc32 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -8561,7 +8561,7 @@ private:
 			local_ids_to_send;
 
 		#ifndef DCCRG_NO_LB
-		if (use_zoltan && Zoltan_LB_Balance(
+		const int zoltan_result = not use_zoltan ? ZOLTAN_OK : Zoltan_LB_Balance(
 			this->zoltan,
 			&partition_changed,
 			&global_id_size,
@@ -8574,8 +8574,9 @@ private:
 			&global_ids_to_send,
 			&local_ids_to_send,
 			&receiver_processes
-			) != ZOLTAN_OK
-		) {
+		);
+		// new partition is valid also if e.g. it's more imbalanced than requested
+		if (zoltan_result != ZOLTAN_OK and zoltan_result != ZOLTAN_WARN) {
 			if (!this->no_load_balancing) {
 				if (this->rank == 0) {
 					std::cerr << "Zoltan_LB_Partition failed" << std::endl;
-- 
2.43.0


From 4ba840550f21f41c2ebf7d81fc73ff0c340b2d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:48 +0000
Subject: [PATCH 09/22] fix: pin to the process where a cell is already pinned
 must replace a pending different request

---
 dccrg.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dccrg.hpp b/dccrg.hpp
index dfbdc32..32aa6ad 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -6036,6 +6036,8 @@ public:
 		// do nothing if the request already exists
 		if (this->pin_requests.count(cell) > 0
 		&& (int) this->pin_requests.at(cell) == process) {
+			// latest request replaces others made after previous load balance
+			this->new_pin_requests.erase(cell);
 			return true;
 		}
 
-- 
2.43.0


From ba265198f52ffc85b87092155552f2b31b23928b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:21 +0000
Subject: [PATCH 10/22] fix: save_grid_data must reserve space for every
 instance of a derived datatype of a cell

---
 dccrg.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 32aa6ad..0f79a4c 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -1506,11 +1506,7 @@ public:
 				abort();
 			}
 
-			if (Is_Named_Datatype()(file_datatypes[i])) {
-				current_byte_offset += counts[i] * (uint64_t) current_bytes;
-			} else {
-				current_byte_offset += (uint64_t) current_bytes;
-			}
+			current_byte_offset += (uint64_t) counts[i] * (uint64_t) current_bytes;
 		}
 
 		// tell everyone how many bytes everyone will write
-- 
2.43.0


From 263214841e0c9d0380b551f39783c073cf3fd5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:21 +0000
Subject: [PATCH 11/22] fix: continue_loading_grid_data must skip all instances
 of a cell's datatype that it has read

---
 dccrg.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 0f79a4c..0db2dde 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -2298,7 +2298,8 @@ public:
 					abort();
 				}
 
-				this->cells_and_data_displacements[i].second += size_in_bytes;
+				this->cells_and_data_displacements[i].second
+					+= (uint64_t) counts[i] * (uint64_t) size_in_bytes;
 			}
 
 			ret_val = MPI_Type_create_struct(
-- 
2.43.0


From 17e15956c30a72e226c86ccc3e7c9fb4823f4f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:30 +0000
Subject: [PATCH 12/22] fix: grid loaded from a file without refined cells must
 have cell lists and copies of remote neighbors

---
 dccrg.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/dccrg.hpp b/dccrg.hpp
index 0db2dde..e5f4e78 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -2068,6 +2068,23 @@ public:
 			return false;
 		}
 
+		this->allocate_copies_of_remote_neighbors();
+
+		try {
+			this->update_cell_pointers(
+				this->cells_rw,
+				this->neighbors_rw,
+				this->inner_cells_default,
+				this->outer_cells_default,
+				this->local_cells_default,
+				this->remote_cells_default,
+				this->all_cells_default,
+				default_neighborhood_id
+			);
+		} catch (...) {
+			throw std::runtime_error(__FILE__ "(" + std::to_string(__LINE__) + ")");
+		}
+
 		// read the total number of cells in the file
 		uint64_t total_number_of_cells = 0;
 		ret_val = MPI_File_read_at_all(
-- 
2.43.0


From 0d1f6d529a1ddb0312e0749fdb79e56da4fb5723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:43 +0000
Subject: [PATCH 13/22] fix: load balancing of a copy constructed grid must use
 cells of the copy instead of the original

---
 dccrg.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index e5f4e78..59bffff 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -416,6 +416,8 @@ public:
 
 		#ifndef DCCRG_NO_LB
 		this->zoltan = Zoltan_Copy(other.get_zoltan());
+		// callbacks copied from other refer to other
+		this->set_zoltan_callbacks();
 		#endif
 
 		// default construct Other_Cell_Data of local cells
@@ -7936,7 +7938,21 @@ private:
 		Zoltan_Set_Param(this->zoltan, "LB_METHOD", this->load_balancing_method.c_str());
 		Zoltan_Set_Param(this->zoltan, "REMAP", "1");
 
-		// set the grids callback functions in Zoltan
+		this->set_zoltan_callbacks();
+
+		return true;
+		#else
+		return false;
+		#endif // ifndef DCCRG_NO_LB
+	}
+
+
+	/*!
+	Sets the grid's callback functions in Zoltan.
+	*/
+	void set_zoltan_callbacks()
+	{
+		#ifndef DCCRG_NO_LB
 		Zoltan_Set_Num_Obj_Fn(
 			this->zoltan,
 			&Dccrg<
@@ -8079,10 +8095,6 @@ private:
 			>::set_partitioning_options,
 			this
 		);
-
-		return true;
-		#else
-		return false;
 		#endif // ifndef DCCRG_NO_LB
 	}
 
-- 
2.43.0


From 02dd95c24e44be71a8adb073ad746ce8e2f5497e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:59 +0000
Subject: [PATCH 14/22] fix: copy constructing a grid from a grid of identical
 type must not refer to the original

---
 dccrg.hpp | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 59bffff..324a49b 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -353,6 +353,25 @@ public:
 			std::tuple<Other_Additional_Cell_Items...>,
 			std::tuple<Other_Additional_Neighbor_Items...>
 		 >& other
+	) :
+		Dccrg(other, Copy_Tag())
+	{}
+
+	/*!
+	As above for another instance of identical type, the implicit copy
+	constructor would make this grid refer to parts of the other grid.
+	*/
+	Dccrg(const Dccrg& other) : Dccrg(other, Copy_Tag()) {}
+
+
+private:
+
+	struct Copy_Tag {};
+
+	// used by the copy constructors above
+	template<class Other_Grid> Dccrg(
+		const Other_Grid& other,
+		const Copy_Tag&
 	) :
 		topology_rw(other.topology),
 		mapping_rw(other.mapping),
@@ -420,13 +439,9 @@ public:
 		this->set_zoltan_callbacks();
 		#endif
 
-		// default construct Other_Cell_Data of local cells
-		for (typename std::unordered_map<uint64_t, Other_Cell_Data>::const_iterator
-			cell_item = other.get_cell_data().begin();
-			cell_item != other.get_cell_data().end();
-			cell_item++
-		) {
-			this->cell_data[cell_item->first];
+		// default construct Cell_Data of local cells
+		for (const auto& cell_item: other.get_cell_data()) {
+			this->cell_data[cell_item.first];
 		}
 
 		this->allocate_copies_of_remote_neighbors();
@@ -448,6 +463,8 @@ public:
 	}
 
 
+public:
+
 	/*!
 	Initializes the instance of the grid with given parameters.
 
-- 
2.43.0


From 52ebfee9f96d2928834c6d3bed410b80ea4a5621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:25 +0000
Subject: [PATCH 15/22] fix: failed initialize() before set_initial_length()
 left the grid marked as initialized

---
 dccrg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 324a49b..c5ba835 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -514,8 +514,6 @@ public:
 			);
 		}
 
-		this->grid_initialized = true;
-
 		if (not this->mapping_initialized) {
 			throw std::invalid_argument(
 				"\n" __FILE__ "(" + to_string(__LINE__) + "): "
@@ -523,6 +521,8 @@ public:
 			);
 		}
 
+		this->grid_initialized = true;
+
 		if (!this->initialize_mpi(given_comm)) {
 			throw std::invalid_argument(
 				"\n" __FILE__ "(" + to_string(__LINE__) + "): "
-- 
2.43.0


From e4514b9ea79501a33237722d97c73a6b172eddea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:25 +0000
Subject: [PATCH 16/22] fix: remove_neighborhood() left cells of all_cells()
 iterator of the removed neighborhood

---
 dccrg.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dccrg.hpp b/dccrg.hpp
index c5ba835..47ca577 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -6804,6 +6804,7 @@ public:
 		this->outer_cells_user.erase(neighborhood_id);
 		this->local_cells_user.erase(neighborhood_id);
 		this->remote_cells_user.erase(neighborhood_id);
+		this->all_cells_user.erase(neighborhood_id);
 		return *this;
 	}
 
-- 
2.43.0


From be9e3f29271c0665ebd5d9746248d4a915c7f39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:25 +0000
Subject: [PATCH 17/22] fix: Mapping accepted lengths for which ids of cells of
 current maximum refinement level overflow

---
 dccrg_mapping.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dccrg_mapping.hpp b/dccrg_mapping.hpp
index 25678da..2a94276 100644
--- a/dccrg_mapping.hpp
+++ b/dccrg_mapping.hpp
@@ -119,10 +119,17 @@ public:
 	//! see Grid_Length::set_length()
 	bool set_length(const std::array<uint64_t, 3>& given_length)
 	{
+		const Grid_Length::type old_length = this->length_rw.get();
 		if (!this->length_rw.set(given_length)) {
 			return false;
 		}
 
+		// ids of cells of current maximum refinement level must also fit
+		if (this->max_refinement_level > this->get_maximum_possible_refinement_level()) {
+			this->length_rw.set(old_length);
+			return false;
+		}
+
 		this->update_last_cell();
 
 		return true;
@@ -559,6 +566,8 @@ public:
 		}
 		offset += sizeof(Grid_Length::type);
 
+		// read after length
+		this->max_refinement_level = 0;
 		if (!this->set_length(length)) {
 			std::cerr << __FILE__ << ":" << __LINE__
 				<< " Couldn't set length of grid"
@@ -605,6 +614,8 @@ public:
 			return false;
 		}
 
+		// read after length
+		this->max_refinement_level = 0;
 		if (!this->set_length(length)) {
 			std::cerr << __FILE__ << ":" << __LINE__
 				<< " Couldn't set length of grid"
-- 
2.43.0


From be963b3aeb5eb7f433b8803626060689a539c3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:23 +0000
Subject: [PATCH 18/22] fix: dont_unrefine() and dont_refine() threw for cells
 of maximum refinement level in DEBUG builds

---
 dccrg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 47ca577..4d8c2d2 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -2815,7 +2815,7 @@ public:
 			throw std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");
 		}
 
-		if (this->cell_process.count(this->mapping.get_child(cell)) > 0) {
+		if (this->get_child(cell) != cell) {
 			throw std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");
 		}
 		#endif
@@ -2876,7 +2876,7 @@ public:
 		}
 
 		#ifdef DEBUG
-		if (this->cell_process.count(this->mapping.get_child(cell)) > 0) {
+		if (this->get_child(cell) != cell) {
 			throw std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");
 		}
 		#endif
-- 
2.43.0


From 951326e9a0ea9ca0f4e9ad39521a6b2f8b806fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:23 +0000
Subject: [PATCH 19/22] fix: get_neighbors_of_at_offset() missed smaller and
 larger neighbors

---
 dccrg.hpp | 44 +++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 4d8c2d2..993d9f0 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -3227,24 +3227,42 @@ public:
 			return return_neighbors;
 		}
 
-		const auto ref_indices = indices_from_neighborhood(
-			this->mapping.get_indices(cell),
-			this->mapping.get_cell_length_in_indices(cell),
-			{{x, y, z}}
-		);
+		const std::array<int64_t, 3> offset{{x, y, z}};
+		const int64_t
+			max_offset = std::max(int64_t(1), int64_t(this->neighborhood_length)),
+			cell_len = int64_t(this->mapping.get_cell_length_in_indices(cell));
+		for (const auto& offset_i: offset) {
+			if (offset_i > max_offset or offset_i < -max_offset) {
+				return return_neighbors;
+			}
+		}
 
-		for (const auto& ref_index: ref_indices) {
-			for (const auto& neighbor_i: this->neighbors_of.at(cell)) {
-				const auto& neighbor = neighbor_i.first;
-				const auto indices = this->mapping.get_indices(neighbor);
+		for (const auto& neighbor_i: this->neighbors_of.at(cell)) {
+			const int64_t neigh_len
+				= int64_t(this->mapping.get_cell_length_in_indices(neighbor_i.first));
+
+			// neighbors of other sizes also overlap given offset
+			bool overlaps = true;
+			for (size_t dim = 0; dim < 3; dim++) {
 				if (
-					indices[0] == ref_index[0]
-					and indices[1] == ref_index[1]
-					and indices[2] == ref_index[2]
+					neighbor_i.second[dim] >= (offset[dim] + 1) * cell_len
+					or neighbor_i.second[dim] + neigh_len <= offset[dim] * cell_len
 				) {
-					return_neighbors.push_back(neighbor_i);
+					overlaps = false;
 				}
 			}
+
+			// larger neighbor is listed for every offset that it covers
+			if (
+				overlaps
+				and std::find(
+					return_neighbors.cbegin(),
+					return_neighbors.cend(),
+					neighbor_i
+				) == return_neighbors.cend()
+			) {
+				return_neighbors.push_back(neighbor_i);
+			}
 		}
 
 		return return_neighbors;
-- 
2.43.0


From b1396115769cc694cb197a2bcdeceec01e0d86fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:23 +0000
Subject: [PATCH 20/22] fix: a grid loaded from a file didn't know that its
 mapping is initialized

---
 dccrg.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dccrg.hpp b/dccrg.hpp
index 993d9f0..feb32ab 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -2026,6 +2026,7 @@ public:
 			}
 			return false;
 		}
+		this->mapping_initialized = true;
 		offset += this->mapping.data_size();
 
 		// initialize default neighborhood
-- 
2.43.0


From 99d8f79161607eaafea2112c6a1f2e4be37302f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:07 +0000
Subject: [PATCH 21/22] fix: free intermediate file datatypes when loading grid
 data

Every call to continue_loading_grid_data() left one datatype behind for each
local cell whose get_mpi_datatype() returned a user defined datatype.
---
 dccrg.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dccrg.hpp b/dccrg.hpp
index feb32ab..17f456a 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -2353,6 +2353,21 @@ public:
 					<< std::endl;
 				abort();
 			}
+
+			// file_datatype doesn't depend on these anymore
+			for (auto& datatype: file_datatypes) {
+				if (!Is_Named_Datatype()(datatype)) {
+					ret_val = MPI_Type_free(&datatype);
+					if (ret_val != MPI_SUCCESS) {
+						std::cerr << __FILE__ << ":" << __LINE__
+							<< " Process " << this->rank
+							<< " Couldn't free intermediate file datatype: "
+							<< Error_String()(ret_val)
+							<< std::endl;
+						return false;
+					}
+				}
+			}
 		}
 
 		ret_val = MPI_Type_commit(&file_datatype);
-- 
2.43.0


From cdb125090f8c202bc48d3e4b0069f55a82a9e3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:55 +0000
Subject: [PATCH 22/22] fix: loading of a file whose end is missing must not
 succeed

Data of cells after the end of the file was silently left as it was.
---
 dccrg.hpp | 50 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/dccrg.hpp b/dccrg.hpp
index 17f456a..ef7a9c4 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -2121,6 +2121,28 @@ public:
 		}
 		offset += sizeof(uint64_t);
 
+		// end of file might be missing
+		MPI_Offset file_size = 0;
+		ret_val = MPI_File_get_size(this->grid_data_file, &file_size);
+		if (ret_val != MPI_SUCCESS) {
+			std::cerr << __FILE__ << ":" << __LINE__
+				<< " Couldn't get size of file " << name
+				<< ": " << Error_String()(ret_val)
+				<< std::endl;
+			return false;
+		}
+		if (
+			offset > file_size
+			or total_number_of_cells > uint64_t(file_size - offset) / (2 * sizeof(uint64_t))
+		) {
+			if (this->rank == 0) {
+				std::cerr << __FILE__ << ":" << __LINE__
+					<< " File " << name << " is too short for cells of the grid"
+					<< std::endl;
+			}
+			return false;
+		}
+
 		// read cells and data displacements
 		std::vector<uint64_t> all_cells_and_data_displacements(2 * total_number_of_cells, error_cell);
 		ret_val = MPI_File_read_at_all(
@@ -2253,6 +2275,9 @@ public:
 			memory_displacements(number_of_cells, 0),
 			file_displacements(number_of_cells, 0);
 
+		// where data of local cells ends in file
+		uint64_t cell_data_end = 0;
+
 		// set file view representing local cell data
 		MPI_Datatype file_datatype;
 
@@ -2337,6 +2362,10 @@ public:
 
 				this->cells_and_data_displacements[i].second
 					+= (uint64_t) counts[i] * (uint64_t) size_in_bytes;
+
+				if (counts[i] > 0 and size_in_bytes > 0) {
+					cell_data_end = std::max(cell_data_end, this->cells_and_data_displacements[i].second);
+				}
 			}
 
 			ret_val = MPI_Type_create_struct(
@@ -2493,6 +2522,27 @@ public:
 			}
 		}
 
+		// end of file might be missing
+		MPI_Offset file_size = 0;
+		ret_val = MPI_File_get_size(this->grid_data_file, &file_size);
+		if (ret_val != MPI_SUCCESS) {
+			std::cerr << __FILE__ << ":" << __LINE__
+				<< " Process " << this->rank
+				<< " Couldn't get file size: "
+				<< Error_String()(ret_val)
+				<< std::endl;
+			return false;
+		}
+		const uint64_t incomplete = cell_data_end > uint64_t(file_size) ? 1 : 0;
+		if (All_Reduce()(incomplete, this->comm) > 0) {
+			if (this->rank == 0) {
+				std::cerr << __FILE__ << ":" << __LINE__
+					<< " File is too short for data of all cells"
+					<< std::endl;
+			}
+			return false;
+		}
+
 		return true;
 	}
 
-- 
2.43.0

