From 9074edcb9200692132f4b2c362b498c0a60b94d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:38 +0000
Subject: [PATCH 01/59] fix: ContractionHierarchy: do not let path lengths wrap
 around

---
 src/contraction_hierarchy.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 794c7c6..6147be4 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -38,7 +38,7 @@ namespace{
 
 			unsigned out = 0;
 			for(unsigned in = 0; in < arc_count; ++in){
-				if(tail[in] != head[in]){
+				if(tail[in] != head[in] && weight[in] < inf_weight){
 					tail[out] = tail[in];
 					head[out] = head[in];
 					weight[out] = weight[in];
@@ -330,6 +330,9 @@ namespace{
 
 				unsigned next_node_distance = distance_to_popped_node + graph_out(popped_node, out_arc).weight;
 
+				if(next_node_distance >= inf_weight)
+					continue;
+
 				if(was_forward_pushed.is_set(next_node)){
 					if(next_node_distance < forward_tentative_distance[next_node]){
 						forward_queue.decrease_key({next_node, next_node_distance});
@@ -569,7 +572,8 @@ namespace{
 			shorter_path_test.pin_source(in_node, node_being_contracted);
 			for(unsigned out_arc = 0; out_arc < graph.out_deg(node_being_contracted); ++out_arc){
 				unsigned out_node = graph.out(node_being_contracted, out_arc).node;
-				if(in_node != out_node){
+				// Paths of length inf_weight or more do not exist, i.e., they do not need a shortcut.
+				if(in_node != out_node && graph.in(node_being_contracted, in_arc).weight + graph.out(node_being_contracted, out_arc).weight < inf_weight){
 					if(
 						!shorter_path_test.does_shorter_or_equal_path_to_target_exist(
 							out_node,
-- 
2.43.0


From 8d57e1545e58016342fc5416285f48422154e38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:56 +0000
Subject: [PATCH 02/59] fix: ContractionHierarchyQuery: support pinned lists
 longer than the node count

---
 src/contraction_hierarchy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 6147be4..9d81cde 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1875,6 +1875,10 @@ namespace{
 	){
 		target_count = external_target_list.size();
 
+		// The list may contain duplicates and therefore may be larger than the number of nodes.
+		if(target_list.size() < target_count)
+			target_list.resize(target_count);
+
 		for(unsigned i=0; i<target_count; ++i){
 			unsigned t = external_target_list[i];
 			t = external_node_to_internal_node[t];
-- 
2.43.0


From 3fb26b5c89307e1194f1898229da9536f16e0a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:39 +0000
Subject: [PATCH 03/59] fix: vector_io: report failed writes

---
 include/routingkit/vector_io.h | 6 ++++++
 src/vector_io.cpp              | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/routingkit/vector_io.h b/include/routingkit/vector_io.h
index 4de32ad..29ee057 100644
--- a/include/routingkit/vector_io.h
+++ b/include/routingkit/vector_io.h
@@ -19,6 +19,9 @@ void save_vector(const std::string&file_name, const std::vector<T>&vec){
 	if(!out)
 		throw std::runtime_error("Can not open \""+file_name+"\" for writing.");
 	out.write(reinterpret_cast<const char*>(&vec[0]), vec.size()*sizeof(T));
+	out.close();
+	if(!out)
+		throw std::runtime_error("Could not write to \""+file_name+"\".");
 }
 
 template<class T>
@@ -158,6 +161,9 @@ void open_file_for_saving(const std::string&file_name, const F&f){
 	if(!out)
 		throw std::runtime_error("Can not open \""+file_name+"\" for writing.");
 	f(out);
+	out.close();
+	if(!out)
+		throw std::runtime_error("Could not write to \""+file_name+"\".");
 }
 
 template<class F>
diff --git a/src/vector_io.cpp b/src/vector_io.cpp
index 331cdd3..8b2e41f 100644
--- a/src/vector_io.cpp
+++ b/src/vector_io.cpp
@@ -5,10 +5,15 @@ namespace RoutingKit{
 template<>
 void save_vector<std::string>(const std::string&file_name, const std::vector<std::string>&vec){
 	std::ofstream out(file_name, std::ios::binary);
+	if(!out)
+		throw std::runtime_error("Can not open \""+file_name+"\" for writing.");
 	for(unsigned i=0; i<vec.size(); ++i){
 		const char*x = vec[i].c_str();
 		out.write(x, vec[i].length()+1);
 	}
+	out.close();
+	if(!out)
+		throw std::runtime_error("Could not write to \""+file_name+"\".");
 }
 
 template<>
@@ -41,6 +46,9 @@ void save_bit_vector(const std::string&file_name, const BitVector&vec){
 	uint64_t size = vec.size();
 	out.write(reinterpret_cast<const char*>(&size), 8);
 	out.write(reinterpret_cast<const char*>(vec.data()), vec.uint512_count()*64);
+	out.close();
+	if(!out)
+		throw std::runtime_error("Could not write to \""+file_name+"\".");
 }
 
 BitVector load_bit_vector(const std::string&file_name){
-- 
2.43.0


From a64484e56feb13d4e44a2672a688290a91f6d717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:11 +0000
Subject: [PATCH 04/59] fix: ContractionHierarchy::read: compute the expected
 file size in 64 bits

---
 src/contraction_hierarchy.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 9d81cde..ebd87dd 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1373,23 +1373,27 @@ namespace{
 ContractionHierarchy ContractionHierarchy::read(std::function<void(char*, unsigned long long)>in, unsigned long long file_size){
 	CHFileHeader header = read_value<CHFileHeader>(in);
 	check_header(header);
+	const unsigned long long
+		node_count = header.node_count,
+		forward_arc_count = header.forward_arc_count,
+		backward_arc_count = header.backward_arc_count;
 	unsigned long long expected_file_size = (
 		  sizeof(CHFileHeader)
 		+ sizeof(unsigned)*(
-			header.node_count
+			node_count
 			+ (
-				header.node_count+1 +
-				4*header.forward_arc_count
+				node_count+1 +
+				4*forward_arc_count
 
 			)
 			+ (
-				header.node_count+1 +
-				4*header.backward_arc_count
+				node_count+1 +
+				4*backward_arc_count
 
 			)
 		)
-		+ ((header.backward_arc_count+511)/512) * 64
-		+ ((header.forward_arc_count+511)/512) * 64
+		+ ((backward_arc_count+511)/512) * 64
+		+ ((forward_arc_count+511)/512) * 64
 	);
 	if(expected_file_size != file_size)
 		throw std::runtime_error("CH file has a different size than specified in the header. This file is corrupt.");
-- 
2.43.0


From e742dd5de9c30b531ccbb935665bb2f7b3d6e5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:31 +0000
Subject: [PATCH 05/59] fix: load_bit_vector: reject headers whose size wraps
 around

---
 src/vector_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector_io.cpp b/src/vector_io.cpp
index 8b2e41f..673dd33 100644
--- a/src/vector_io.cpp
+++ b/src/vector_io.cpp
@@ -61,7 +61,7 @@ BitVector load_bit_vector(const std::string&file_name){
 	
 	uint64_t size;
 	in.read(reinterpret_cast<char*>(&size), 8);
-	if(((size+511)/512) * 64 + 8 != file_size)
+	if((size/512 + (size%512 != 0)) * 64 + 8 != file_size)
 		throw std::runtime_error("File \""+file_name+"\" can not be a bit vector of the requested size because the size in the header and the file size do not correspond.");
 	BitVector vec(size);
 	in.read(reinterpret_cast<char*>(vec.data()), (((size+511)/512) * 64));
-- 
2.43.0


From 4563ab97060d1216f2612dc76f58ed52b205e38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:37 +0000
Subject: [PATCH 06/59] fix: CustomizableContractionHierarchy: accept an empty
 log callback and an empty graph

---
 src/customizable_contraction_hierarchy.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 04f29a3..f0179e4 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -416,7 +416,7 @@ CustomizableContractionHierarchy::CustomizableContractionHierarchy(
 		log_message("Finished computing elimination tree, needed "+std::to_string(timer)+"musec");
 	}
 
-	if(log_message){
+	if(log_message && node_count != 0){
 		std::vector<unsigned>
 			nodes_in_search_space(node_count, 0),
 			arcs_in_search_space(node_count, 0);
@@ -450,7 +450,10 @@ CustomizableContractionHierarchy::CustomizableContractionHierarchy(
 
 	// filter up graph
 	if(!filter_always_inf_arcs)
-		log_message("Not filtering upward arcs");
+	{
+		if(log_message)
+			log_message("Not filtering upward arcs");
+	}
 	else
 	{
 		if(log_message){
-- 
2.43.0


From 4ed881a94c24aff01ae1bd59e875f7803f50ae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:26 +0000
Subject: [PATCH 07/59] fix:
 build_contraction_hierarchy_using_perfect_witness_search: drop shortcuts that
 can not be unpacked

---
 src/customizable_contraction_hierarchy.cpp | 29 ++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index f0179e4..31aff39 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -1799,6 +1799,35 @@ ContractionHierarchy CustomizableContractionHierarchyMetric::build_contraction_h
 		);
 	#endif
 
+	// If always-inf arcs were filtered then the graph is no longer chordal. The loop above can therefore keep shortcuts
+	// whose lower triangles were shortened. These shortcuts are not part of any shortest path and must be removed, as
+	// they can not be unpacked. Lower arcs have smaller IDs and are therefore already in their final state.
+	for(unsigned a=0; a<cch->cch_arc_count(); ++a){
+		bool has_forward_unpacking = unpack_original_forward_arc(*cch, *this, a) != invalid_id;
+		bool has_backward_unpacking = unpack_original_backward_arc(*cch, *this, a) != invalid_id;
+		forall_lower_triangles_of_arc(
+			*cch, a,
+			[&](
+				unsigned bottom_arc, unsigned mid_arc, unsigned top_arc,
+				unsigned bottom_node, unsigned mid_node, unsigned top_node
+			){
+				(void)bottom_node;
+				(void)mid_node;
+				(void)top_node;
+
+				if(keep_backward_arc.is_set(bottom_arc) && keep_forward_arc.is_set(mid_arc) && backward[bottom_arc] + forward[mid_arc] == forward[top_arc])
+					has_forward_unpacking = true;
+				if(keep_backward_arc.is_set(mid_arc) && keep_forward_arc.is_set(bottom_arc) && backward[mid_arc] + forward[bottom_arc] == backward[top_arc])
+					has_backward_unpacking = true;
+				return !has_forward_unpacking || !has_backward_unpacking;
+			}
+		);
+		if(!has_forward_unpacking)
+			keep_forward_arc.reset(a);
+		if(!has_backward_unpacking)
+			keep_backward_arc.reset(a);
+	}
+
 	ContractionHierarchy ch;
 
 	ch.rank = cch->rank;
-- 
2.43.0


From e1241bbbbf554719d48c586dee314d3cf94774c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:12 +0000
Subject: [PATCH 08/59] fix: CustomizableContractionHierarchy: copies no longer
 refer to the original

---
 .../customizable_contraction_hierarchy.h      |  6 ++++
 src/customizable_contraction_hierarchy.cpp    | 29 +++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/include/routingkit/customizable_contraction_hierarchy.h b/include/routingkit/customizable_contraction_hierarchy.h
index 942d91c..91d8639 100644
--- a/include/routingkit/customizable_contraction_hierarchy.h
+++ b/include/routingkit/customizable_contraction_hierarchy.h
@@ -19,6 +19,12 @@ struct CustomizableContractionHierarchy{
 
 	CustomizableContractionHierarchy(std::vector<unsigned>order, std::vector<unsigned>tail, std::vector<unsigned>head, std::function<void(const std::string&)>log_message = [](const std::string&){}, bool filter_always_inf_arcs = false);
 
+	// The LocalIDMappers refer to the BitVectors of the same object and must therefore be rebuilt when copying.
+	CustomizableContractionHierarchy(const CustomizableContractionHierarchy&);
+	CustomizableContractionHierarchy& operator=(const CustomizableContractionHierarchy&);
+	CustomizableContractionHierarchy(CustomizableContractionHierarchy&&) = default;
+	CustomizableContractionHierarchy& operator=(CustomizableContractionHierarchy&&) = default;
+
 	unsigned node_count()const{
 		return rank.size();
 	}
diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 31aff39..fc823e2 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -657,6 +657,35 @@ CustomizableContractionHierarchy::CustomizableContractionHierarchy(
 //		forall_lower_triangles_of_arc(*this, a, TriangleVerifier(*this));
 }
 
+CustomizableContractionHierarchy::CustomizableContractionHierarchy(const CustomizableContractionHierarchy&other):
+	order(other.order),
+	rank(other.rank),
+	elimination_tree_parent(other.elimination_tree_parent),
+	up_first_out(other.up_first_out),
+	up_head(other.up_head),
+	up_tail(other.up_tail),
+	down_first_out(other.down_first_out),
+	down_head(other.down_head),
+	down_to_up(other.down_to_up),
+	input_arc_to_cch_arc(other.input_arc_to_cch_arc),
+	is_input_arc_upward(other.is_input_arc_upward),
+	does_cch_arc_have_input_arc(other.does_cch_arc_have_input_arc),
+	does_cch_arc_have_input_arc_mapper(does_cch_arc_have_input_arc),
+	forward_input_arc_of_cch(other.forward_input_arc_of_cch),
+	backward_input_arc_of_cch(other.backward_input_arc_of_cch),
+	does_cch_arc_have_extra_input_arc(other.does_cch_arc_have_extra_input_arc),
+	does_cch_arc_have_extra_input_arc_mapper(does_cch_arc_have_extra_input_arc),
+	first_extra_forward_input_arc_of_cch(other.first_extra_forward_input_arc_of_cch),
+	first_extra_backward_input_arc_of_cch(other.first_extra_backward_input_arc_of_cch),
+	extra_forward_input_arc_of_cch(other.extra_forward_input_arc_of_cch),
+	extra_backward_input_arc_of_cch(other.extra_backward_input_arc_of_cch){}
+
+CustomizableContractionHierarchy& CustomizableContractionHierarchy::operator=(const CustomizableContractionHierarchy&other){
+	CustomizableContractionHierarchy copy(other);
+	*this = std::move(copy);
+	return *this;
+}
+
 namespace{
 
 	void extract_initial_metric_of_cch_arc(const CustomizableContractionHierarchy&cch, CustomizableContractionHierarchyMetric&metric, unsigned cch_arc){
-- 
2.43.0


From 8404fc1d68389784ee12ea17579ced42b4b94420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:57 +0000
Subject: [PATCH 09/59] fix: initialize members in default constructors

---
 include/routingkit/customizable_contraction_hierarchy.h | 8 ++++----
 include/routingkit/id_set_queue.h                       | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/routingkit/customizable_contraction_hierarchy.h b/include/routingkit/customizable_contraction_hierarchy.h
index 91d8639..cd8d93c 100644
--- a/include/routingkit/customizable_contraction_hierarchy.h
+++ b/include/routingkit/customizable_contraction_hierarchy.h
@@ -71,7 +71,7 @@ struct CustomizableContractionHierarchy{
 };
 
 struct CustomizableContractionHierarchyMetric{
-	CustomizableContractionHierarchyMetric(){}
+	CustomizableContractionHierarchyMetric():cch(nullptr), input_weight(nullptr){}
 	CustomizableContractionHierarchyMetric(const CustomizableContractionHierarchy&cch, const unsigned*input_weight);
 	CustomizableContractionHierarchyMetric(const CustomizableContractionHierarchy&cch, const std::vector<unsigned>&input_weight);
 
@@ -94,7 +94,7 @@ struct CustomizableContractionHierarchyMetric{
 };
 
 struct CustomizableContractionHierarchyParallelization{
-	CustomizableContractionHierarchyParallelization(){}
+	CustomizableContractionHierarchyParallelization():cch(nullptr){}
 	explicit CustomizableContractionHierarchyParallelization(const CustomizableContractionHierarchy&cch);
 
 	CustomizableContractionHierarchyParallelization& reset(const CustomizableContractionHierarchy&cch){
@@ -114,7 +114,7 @@ struct CustomizableContractionHierarchyParallelization{
 };
 
 struct CustomizableContractionHierarchyPartialCustomization{
-	CustomizableContractionHierarchyPartialCustomization(){}
+	CustomizableContractionHierarchyPartialCustomization():cch(nullptr){}
 	explicit CustomizableContractionHierarchyPartialCustomization(const CustomizableContractionHierarchy&cch);
 
 	CustomizableContractionHierarchyPartialCustomization&reset();
@@ -129,7 +129,7 @@ struct CustomizableContractionHierarchyPartialCustomization{
 };
 
 struct CustomizableContractionHierarchyQuery{
-	CustomizableContractionHierarchyQuery(){}
+	CustomizableContractionHierarchyQuery():shortest_path_meeting_node(invalid_id), cch(nullptr), metric(nullptr), state(0){}
 	explicit CustomizableContractionHierarchyQuery(const CustomizableContractionHierarchyMetric&metric);
 
 	CustomizableContractionHierarchyQuery&reset();
diff --git a/include/routingkit/id_set_queue.h b/include/routingkit/id_set_queue.h
index fc285aa..6b60753 100644
--- a/include/routingkit/id_set_queue.h
+++ b/include/routingkit/id_set_queue.h
@@ -105,7 +105,7 @@ private:
 	}
 
 public:
-	IDSetMinQueue(){}
+	IDSetMinQueue():max_number_of_ids(0), min_id(invalid_id), offset(1){}
 
 	//! The queue may contain IDs from 0 to n-1.
 	explicit IDSetMinQueue(unsigned n):
-- 
2.43.0


From 968c358300a8f84f26317d03b7820ec979cf8d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:29 +0000
Subject: [PATCH 10/59] fix:
 CustomizableContractionHierarchyQuery::reset(metric): notice a changed node
 count

---
 src/customizable_contraction_hierarchy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index fc823e2..15d6003 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -1965,7 +1965,7 @@ CustomizableContractionHierarchyQuery& CustomizableContractionHierarchyQuery::re
 }
 
 CustomizableContractionHierarchyQuery& CustomizableContractionHierarchyQuery::reset(const CustomizableContractionHierarchyMetric&metric){
-	if(this->cch == metric.cch) {
+	if(this->cch == metric.cch && forward_tentative_distance.size() == metric.cch->node_count()) {
 		this->metric = &metric;
 		reset();
 	} else {
-- 
2.43.0


From 97a0df2e155befd44de6b68f1dec5c34c31a3992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:09 +0000
Subject: [PATCH 11/59] fix: Dijkstra: do not let path lengths wrap around

---
 include/routingkit/dijkstra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/routingkit/dijkstra.h b/include/routingkit/dijkstra.h
index 6a3d3e3..9378599 100644
--- a/include/routingkit/dijkstra.h
+++ b/include/routingkit/dijkstra.h
@@ -92,7 +92,7 @@ public:
 		for(unsigned a=(*first_out)[p.id]; a<(*first_out)[p.id+1]; ++a){
 			if(!was_popped.is_set((*head)[a])){
 				unsigned w = get_weight(a, p.key);
-				if(w < inf_weight){
+				if(w < inf_weight - p.key){
 					if(queue.contains_id((*head)[a])){
 						if(queue.decrease_key({(*head)[a], p.key + w})){
 							predecessor_arc[(*head)[a]] = a;
-- 
2.43.0


From 892e63084b3f94c03554e7a1ef7a45fda49f201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:43 +0000
Subject: [PATCH 12/59] fix: Dijkstra::reset: compare with the size of the own
 buffers

---
 include/routingkit/dijkstra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/routingkit/dijkstra.h b/include/routingkit/dijkstra.h
index 9378599..a878634 100644
--- a/include/routingkit/dijkstra.h
+++ b/include/routingkit/dijkstra.h
@@ -40,7 +40,7 @@ public:
 		assert(first_out.back() == tail.size());
 		assert(first_out.back() == head.size());
 
-		if(this->first_out != nullptr && first_out.size() == this->first_out->size()){
+		if(this->first_out != nullptr && first_out.size()-1 == tentative_distance.size()){
 			this->first_out = &first_out;
 			this->head = &head;
 			this->tail = &tail;
-- 
2.43.0


From 200d27d15ae6ae6646b962668f5402623873ae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:26 +0000
Subject: [PATCH 13/59] fix:
 decompose_graph_fragment_into_connected_components: accept an empty graph

---
 src/nested_dissection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nested_dissection.cpp b/src/nested_dissection.cpp
index 7907c87..81adace 100644
--- a/src/nested_dissection.cpp
+++ b/src/nested_dissection.cpp
@@ -699,6 +699,9 @@ std::vector<GraphFragment>decompose_graph_fragment_into_connected_components(Gra
 		part_list.push_back(std::move(part));
 	};
 
+	if(node_count == 0)
+		return part_list;
+
 	unsigned component_node_begin = 0;
 	unsigned component_arc_begin = 0;
 	unsigned component_node_end = 1;
-- 
2.43.0


From c8c8849e6d6702e35867ef95f7204305671163e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:06 +0000
Subject: [PATCH 14/59] fix: filter: do not move elements onto themselves

---
 include/routingkit/filter.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/routingkit/filter.h b/include/routingkit/filter.h
index 78990d3..9ec279d 100644
--- a/include/routingkit/filter.h
+++ b/include/routingkit/filter.h
@@ -16,7 +16,8 @@ void inplace_keep_element_of_vector_if(const BitVector&keep_filter, std::vector<
 	uint64_t in = 0, out = 0, s = vec.size();
 	while(in != s){
 		if(keep_filter.is_set(in)){
-			vec[out] = std::move(vec[in]);
+			if(in != out) // moving an element onto itself can destroy it
+				vec[out] = std::move(vec[in]);
 			++out;
 		}
 		++in;
@@ -31,7 +32,8 @@ void inplace_remove_element_from_vector_if(const BitVector&remove_filter, std::v
 	uint64_t in = 0, out = 0, s = vec.size();
 	while(in != s){
 		if(!remove_filter.is_set(in)){
-			vec[out] = std::move(vec[in]);
+			if(in != out) // moving an element onto itself can destroy it
+				vec[out] = std::move(vec[in]);
 			++out;
 		}
 		++in;
-- 
2.43.0


From 8574649321fbf63928c8201c6fbc0cb94abafac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:06 +0000
Subject: [PATCH 15/59] fix: BitVector: handle sizes that are a multiple of 512

---
 src/bit_vector.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bit_vector.cpp b/src/bit_vector.cpp
index 3d7d888..74797f4 100644
--- a/src/bit_vector.cpp
+++ b/src/bit_vector.cpp
@@ -116,6 +116,8 @@ namespace {
 		v8_uint64_t u = {0};
 
 		uint64_t x = size % 512;
+		if(x == 0)
+			return ~u; // there are no padding bits
 		uint8_t i = 0;
 		while(x >= 64){
 			u[i++] = ~0ull;
@@ -317,7 +319,7 @@ void BitVector::resize(uint64_t new_size, bool value){
 		if(new_size < size_) {
 			resize(new_size, uninitialized);
 		} else if(get_uint8_count(new_size) == get_uint8_count(size_)){
-			if(value == false){
+			if(value == false || new_size == size_){
 				size_ = new_size;
 			} else {
 				((v8_uint64_t*)data_)[size_/512] |= get_padding_mask(new_size) & ~get_padding_mask(size_);
-- 
2.43.0


From 2e8791eec67a41462c9dbf1467d9c3995b1253ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:06 +0000
Subject: [PATCH 16/59] fix: BitVector: copies of an empty vector own no array

---
 src/bit_vector.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bit_vector.cpp b/src/bit_vector.cpp
index 74797f4..8f0549b 100644
--- a/src/bit_vector.cpp
+++ b/src/bit_vector.cpp
@@ -230,9 +230,12 @@ BitVector::~BitVector(){
 }
 
 BitVector::BitVector(const BitVector&o):
-	data_(static_cast<uint64_t*>(aligned_alloc(64, get_uint8_count(o.size_)))), size_(o.size_){
-	if(data_ == nullptr)
-		throw std::bad_alloc();
+	data_(nullptr), size_(o.size_){
+	if(size_ != 0){
+		data_ = static_cast<uint64_t*>(aligned_alloc(64, get_uint8_count(size_)));
+		if(data_ == nullptr)
+			throw std::bad_alloc();
+	}
 
 	assert(are_all_padding_bits_zero(o));
 
-- 
2.43.0


From 66a236f3a3d514bee8a7a9d13c4b5f906258152d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:02 +0000
Subject: [PATCH 17/59] fix: convert_arc_path_to_node_path: convert the first
 arc

---
 src/graph_util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_util.cpp b/src/graph_util.cpp
index fda7e37..c98d9f7 100644
--- a/src/graph_util.cpp
+++ b/src/graph_util.cpp
@@ -69,7 +69,7 @@ std::vector<unsigned>convert_node_path_to_arc_path(const std::vector<unsigned>&f
 std::vector<unsigned>convert_arc_path_to_node_path(unsigned source, const std::vector<unsigned>&head, std::vector<unsigned>path){
 	if(!path.empty()){
 		path.resize(path.size()+1);
-		for(unsigned i=path.size()-1; i>1; --i)
+		for(unsigned i=path.size()-1; i>0; --i)
 			path[i] = head[path[i-1]];
 		path[0] = source;
 	}
-- 
2.43.0


From ac274381bb4b784976ab1b74a0caf37f8125a0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:02 +0000
Subject: [PATCH 18/59] fix: apply_permutation_to_possibly_invalid_elements_of:
 keep invalid elements

---
 include/routingkit/permutation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/routingkit/permutation.h b/include/routingkit/permutation.h
index 4863817..f476f8c 100644
--- a/include/routingkit/permutation.h
+++ b/include/routingkit/permutation.h
@@ -128,7 +128,7 @@ std::vector<unsigned> apply_permutation_to_possibly_invalid_elements_of(const st
 	assert(std::all_of(v.begin(), v.end(), [&](unsigned x){return x < p.size() || x == invalid_id;}) && "v has an out of bounds element");
 	
 	std::vector<unsigned> r = v;
-	inplace_apply_permutation_to_elements_of(p, r);
+	inplace_apply_permutation_to_possibly_invalid_elements_of(p, r);
 	return r; // NVRO
 }
 
-- 
2.43.0


From 8c08a4991608149dbd628e703a8033f1a0b4163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:13 +0000
Subject: [PATCH 19/59] fix: IDSetMinQueue::pop: return invalid_id if the queue
 is empty

---
 include/routingkit/id_set_queue.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/routingkit/id_set_queue.h b/include/routingkit/id_set_queue.h
index 6b60753..7f186e9 100644
--- a/include/routingkit/id_set_queue.h
+++ b/include/routingkit/id_set_queue.h
@@ -169,7 +169,8 @@ public:
 	//! Returns the smallest ID in the queue and removes it.
 	//! Returns invalid_id if the queue is empty.
 	unsigned pop() {
-		assert(!empty());
+		if(empty())
+			return invalid_id;
 
 		unsigned ret = min_id;
 
-- 
2.43.0


From 5744984fd88dae6f267f90985723e77c3b690cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:16 +0000
Subject: [PATCH 20/59] fix: geo_dist: do not return NaN for (nearly) identical
 or antipodal points

---
 include/routingkit/geo_dist.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/routingkit/geo_dist.h b/include/routingkit/geo_dist.h
index 0bf59bb..db792fc 100644
--- a/include/routingkit/geo_dist.h
+++ b/include/routingkit/geo_dist.h
@@ -115,6 +115,11 @@ inline double geo_dist(double lat_a, double lon_a, double lat_b, double lon_b){
 
 	double len = (vec[0] + vec[1]) * vec[2] + vec[0] - vec[1];
 	len *= 0.5;
+	// Rounding can put len slightly outside of [-1,1], for which acos is not defined.
+	if(len > 1.0)
+		len = 1.0;
+	if(len < -1.0)
+		len = -1.0;
 	len  = acos(len);
 	len *= earth_radius;
 
-- 
2.43.0


From 7a2a0f90fe920b3e5014eac5e25f1c8b8ec40308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:55 +0000
Subject: [PATCH 21/59] fix: GeoPositionToNode: build the tree with the
 distances that queries use

---
 src/geo_position_to_node.cpp | 67 +++---------------------------------
 1 file changed, 4 insertions(+), 63 deletions(-)

diff --git a/src/geo_position_to_node.cpp b/src/geo_position_to_node.cpp
index d095f46..7ad8cce 100644
--- a/src/geo_position_to_node.cpp
+++ b/src/geo_position_to_node.cpp
@@ -41,70 +41,11 @@ namespace{
 
 			construct_tree(d, begin, mid);
 
-			// Slower but simpler code			
-			// for(auto i=mid; i!=end; ++i)
-			//	d[i].distance_to_pivot = compute_distance(d[mid].position, d[i].position);
-
-			// Faster more complex vectorized code
-			{
-				const float pi = 3.14159265359;
-				const float R = 6371000.785; // earth radius in meter
-				const float inv_180 = 1.0 / 180;
-
-				float a_lat = d[mid].position.latitude;
-				float a_lon = d[mid].position.longitude;
-
-				a_lat *= inv_180;
-				a_lat *= pi;
-				a_lon *= inv_180;
-				a_lon *= pi;
-
-				const unsigned vector_width = 16;
-				for(unsigned i=mid; i<end; i+=vector_width){
-
-					float b_lat[vector_width];
-					float b_lon[vector_width];
-					float a_[vector_width];
-
-					unsigned element_count = vector_width;
-					if(end - i < element_count)
-						element_count = end - i;
-
-					for(unsigned j=0; j<element_count; ++j){
-						b_lat[j] = d[i+j].position.latitude;
-						b_lon[j] = d[i+j].position.longitude;
-					}
-
-					for(unsigned j=element_count; j<vector_width; ++j){
-						b_lat[j] = 0;
-						b_lon[j] = 0;
-					}
-
-					// GCC5's auto vectorizer is clever enough to vectorize this loop 
-					// OpenMP does not harm but is not needed
-					// #pragma omp simd
-					for(unsigned j=0; j<vector_width; ++j){
-						b_lat[j] *= inv_180;
-						b_lat[j] *= pi;
-						b_lon[j] *= inv_180;
-						b_lon[j] *= pi;
-
-						float dlat = b_lat[j] - a_lat;
-						float dlon = b_lon[j] - a_lon;
-
-						a_[j] = sinf(dlat*0.5) * sinf(dlat*0.5) + sinf(dlon*0.5) * sinf(dlon*0.5) * cosf(a_lat) * cosf(b_lat[j]);
-					}
-
-					for(unsigned j=0; j<element_count; ++j){
-						// GCC5 does not have vectorized versions of atan2f nor sqrtf
-						// we therefore call the sequential functions as they would prevent the vectorization of the previous loop
-						float c = 2 * atan2f(sqrtf(a_[j]), sqrtf(1-a_[j]));
-						d[i+j].distance_to_pivot = R * c;
-					}
-				}
+			// This must be the same function that the queries use. A less precise formula gives
+			// a tree in which the queries prune subtrees that contain points of the result.
+			for(auto i=mid; i!=end; ++i)
+				d[i].distance_to_pivot = compute_distance(d[mid].position, d[i].position);
 
-			}
-	
 			construct_tree(d, mid, end);
 		}
 	}
-- 
2.43.0


From 08be2e624af2c0854760a3d35761033c3a7b3ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:15 +0000
Subject: [PATCH 22/59] fix: protobuf: reject varints that do not fit into 64
 bit

---
 src/protobuf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/protobuf.cpp b/src/protobuf.cpp
index d14f799..e309d0f 100644
--- a/src/protobuf.cpp
+++ b/src/protobuf.cpp
@@ -13,7 +13,7 @@ uint64_t decode_varint_as_uint64_and_advance_first_parameter(const char*&begin,
 	uint8_t mask = ~high_bit;
 
 	while((*begin & high_bit) != 0){
-		if(shift == 7*9 && ((uint8_t)*begin) != (1|high_bit))
+		if(shift == 7*9)
 			throw std::runtime_error("Cannot decode varint because the value does not fit into 64 bit.");
 		n |= ((uint64_t)(((uint8_t)*begin) & mask))<<shift;
 		shift += 7;
@@ -21,6 +21,8 @@ uint64_t decode_varint_as_uint64_and_advance_first_parameter(const char*&begin,
 		if(begin == end)
 			throw std::runtime_error("Protobuf message is corrupt because varint was not terminated before the end of the message.");
 	}
+	if(shift == 7*9 && ((uint8_t)*begin) > 1)
+		throw std::runtime_error("Cannot decode varint because the value does not fit into 64 bit.");
 	n |= ((uint64_t)(((uint8_t)*begin) & mask)) << shift;
 	++begin;
 
-- 
2.43.0


From 0a043952896613339919a4b705e418ae3b05d92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:05 +0000
Subject: [PATCH 23/59] fix: TagMap::clear: also remove the entries

---
 include/routingkit/tag_map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/routingkit/tag_map.h b/include/routingkit/tag_map.h
index 2de6a27..2f1acc3 100644
--- a/include/routingkit/tag_map.h
+++ b/include/routingkit/tag_map.h
@@ -55,6 +55,8 @@ public:
 			entry_begin[x>>16] = 0;
 			entry_end[x>>16] = 0;
 		}
+		hash_element_list.clear();
+		entry.clear();
 	}
 
 	template<class GetKey, class GetValue>
-- 
2.43.0


From 091dbe4f017cbe456be77a41c14569104b7da113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:36 +0000
Subject: [PATCH 24/59] fix: TagMap: support more than 65536 tags

---
 include/routingkit/tag_map.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/routingkit/tag_map.h b/include/routingkit/tag_map.h
index 2f1acc3..b0a6f1c 100644
--- a/include/routingkit/tag_map.h
+++ b/include/routingkit/tag_map.h
@@ -52,8 +52,8 @@ public:
 
 	void clear(){
 		for(auto x:hash_element_list){
-			entry_begin[x>>16] = 0;
-			entry_end[x>>16] = 0;
+			entry_begin[x>>32] = 0;
+			entry_end[x>>32] = 0;
 		}
 		hash_element_list.clear();
 		entry.clear();
@@ -66,15 +66,15 @@ public:
 
 		hash_element_list.resize(key_value_count);
 		for(unsigned i=0; i<key_value_count; ++i)
-			hash_element_list[i] = (compute_hash(get_key(i))<<16) | i;
+			hash_element_list[i] = ((unsigned long long)compute_hash(get_key(i))<<32) | i;
 		
 		std::sort(hash_element_list.begin(), hash_element_list.end());
 
 		entry.resize(key_value_count);
 		unsigned prev_hash = hash_count;
 		for(unsigned i=0; i<key_value_count; ++i){
-			unsigned hash = hash_element_list[i] >> 16;
-			unsigned j = hash_element_list[i] & 0xFFFFu;
+			unsigned hash = hash_element_list[i] >> 32;
+			unsigned j = hash_element_list[i] & 0xFFFFFFFFu;
 			entry[i].key = get_key(j);
 			entry[i].value = get_value(j);
 
@@ -118,7 +118,7 @@ public:
 	}
 
 private:
-	std::vector<unsigned>hash_element_list;
+	std::vector<unsigned long long>hash_element_list;
 	std::vector<Entry>entry;
 	std::vector<unsigned>entry_begin, entry_end;
 };
-- 
2.43.0


From d4d85293a7ee861eb63544cd22953c6da7f6eaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:36 +0000
Subject: [PATCH 25/59] fix: OSM PBF: accept uncompressed blobs without a size

---
 src/osm_decoder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index b71b87e..b0a5372 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -193,6 +193,8 @@ namespace{
 					throw std::runtime_error("PBF error: Blob must not contain both compressed and uncompressed data");
 				if(uncompressed_begin == nullptr && compressed_begin == nullptr)
 					throw std::runtime_error("PBF error: Blob contains neither compressed nor uncompressed data");
+				if(uncompressed_data_size == (uint64_t)-1 && uncompressed_begin != nullptr) // the size is only needed for compressed data
+					uncompressed_data_size = uncompressed_end - uncompressed_begin;
 				if(uncompressed_data_size == (uint64_t)-1)
 					throw std::runtime_error("PBF error: Blob does not contain the size of the uncompressed data");
 				if(uncompressed_begin){
-- 
2.43.0


From 6feadffca9d477073354d52fd0a075b94ee9a730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:04 +0000
Subject: [PATCH 26/59] fix: OSM PBF: bounds check of string IDs was off by one

---
 src/osm_decoder.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index b0a5372..8b20923 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -367,13 +367,13 @@ namespace {
 					key_list.size(),
 					[&](uint64_t i){
 						i = key_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: key string ID is out of bounds.");
 						return string_table[i];
 					},
 					[&](uint64_t i){
 						i = value_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: value string ID is out of bounds.");
 						return string_table[i];
 					}
@@ -440,13 +440,13 @@ namespace {
 							key_list.size(),
 							[&](uint64_t i){
 								i = key_list[i];
-								if(i > string_table.size())
+								if(i >= string_table.size())
 									throw std::runtime_error("PBF error: key string ID is out of bounds.");
 								return string_table[i];
 							},
 							[&](uint64_t i){
 								i = value_list[i];
-								if(i > string_table.size())
+								if(i >= string_table.size())
 									throw std::runtime_error("PBF error: value string ID is out of bounds.");
 								return string_table[i];
 							}
@@ -510,13 +510,13 @@ namespace {
 					key_list.size(),
 					[&](uint64_t i){
 						i = key_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: key string ID is out of bounds.");
 						return string_table[i];
 					},
 					[&](uint64_t i){
 						i = value_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: value string ID is out of bounds.");
 						return string_table[i];
 					}
@@ -590,13 +590,13 @@ namespace {
 					key_list.size(),
 					[&](uint64_t i){
 						i = key_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: key string ID is out of bounds.");
 						return string_table[i];
 					},
 					[&](uint64_t i){
 						i = value_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: value string ID is out of bounds.");
 						return string_table[i];
 					}
-- 
2.43.0


From 3ae70e9ffbf16a3b550aca363afc5e7356d0831b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:23 +0000
Subject: [PATCH 27/59] fix: OSM PBF: report files that are truncated in an
 unknown block or in a block size

---
 src/osm_decoder.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index 8b20923..a3c3149 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -93,9 +93,11 @@ namespace{
 
 				for(;;){
 					char*p = reader.read(4);
-					if(p == nullptr)
+					if(p == nullptr){
+						if(reader.read(1) != nullptr)
+							throw std::runtime_error("OSM PBF file ends within the size of a block header");
 						return 0;
-
+					}
 
 					uint32_t header_size = ntohl(unaligned_load<uint32_t>(p));
 
@@ -159,7 +161,7 @@ namespace{
 						else
 							status = is_header_info_available_bit | was_header_read_bit;
 					} else {
-						reader.read(data_size);
+						reader.read_or_throw(data_size);
 						continue;
 					}
 				}
-- 
2.43.0


From c00003527b6dacb7c66fd110fd07e45110dc3ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:07 +0000
Subject: [PATCH 28/59] fix: OSM PBF: decode non-dense nodes

---
 src/osm_decoder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index a3c3149..2b67c52 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -335,10 +335,10 @@ namespace {
 					begin, end,
 					[&](uint64_t key_id, uint64_t num){
 						if(key_id == 1)
-							osm_node_id = num;
-						else if(key_id == 19)
+							osm_node_id = zigzag_convert_uint64_to_int64(num);
+						else if(key_id == 8)
 							latitude = primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
-						else if(key_id == 20)
+						else if(key_id == 9)
 							longitude = primblock_lat_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
 					},
 					[&](uint64_t key_id, double num){},
-- 
2.43.0


From 20e731c126b03939616647eefecf9ea847833f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:38 +0000
Subject: [PATCH 29/59] fix: OSM PBF: latitude and longitude offsets of a block

---
 src/osm_decoder.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index 2b67c52..676f371 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -289,9 +289,9 @@ namespace {
 					if(key_id == 17)
 						latlon_granularity = num;
 					else if(key_id == 19)
-						offset_of_latitude = zigzag_convert_uint64_to_int64(num);
+						offset_of_latitude = (int64_t)num; // no zigzag encoding
 					else if(key_id == 20)
-						offset_of_longitude = zigzag_convert_uint64_to_int64(num);
+						offset_of_longitude = (int64_t)num; // no zigzag encoding
 
 				},
 				[&](uint64_t key_id, double num){},
@@ -319,8 +319,8 @@ namespace {
 			if(latlon_granularity == 0)
 				throw std::runtime_error("PBF error: latlon_granularity of a block must not be zero.");
 
-			double primblock_lon_offset = 0.000000001 * offset_of_latitude;
-			double primblock_lat_offset = 0.000000001 * offset_of_longitude;
+			double primblock_lat_offset = 0.000000001 * offset_of_latitude;
+			double primblock_lon_offset = 0.000000001 * offset_of_longitude;
 			double primblock_granularity = 0.000000001 * latlon_granularity;
 
 			auto decode_sparse_node = [&](const char*begin, const char*end){
@@ -337,9 +337,9 @@ namespace {
 						if(key_id == 1)
 							osm_node_id = zigzag_convert_uint64_to_int64(num);
 						else if(key_id == 8)
-							latitude = primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
+							latitude = primblock_lat_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
 						else if(key_id == 9)
-							longitude = primblock_lat_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
+							longitude = primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
 					},
 					[&](uint64_t key_id, double num){},
 					[&](uint64_t key_id, const char*begin, const char*end){
@@ -422,11 +422,14 @@ namespace {
 				tag_map.clear();
 
 				uint64_t osm_node_id = 0;
-				double latitude = 0.0, longitude = 0.0;
+				// The deltas are summed up as integers, so that the offsets are only added once and no rounding errors accumulate.
+				uint64_t latitude_sum = 0, longitude_sum = 0;
 				while(osm_node_id_begin != osm_node_id_end){
 					osm_node_id += zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(osm_node_id_begin, osm_node_id_end));
-					latitude += primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(latitude_begin, latitude_end));
-					longitude += primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(longitude_begin, longitude_end));
+					latitude_sum += zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(latitude_begin, latitude_end));
+					longitude_sum += zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(longitude_begin, longitude_end));
+					double latitude = primblock_lat_offset + primblock_granularity * (int64_t)latitude_sum;
+					double longitude = primblock_lon_offset + primblock_granularity * (int64_t)longitude_sum;
 					if(key_value_pairs_begin != nullptr){
 						key_list.clear();
 						value_list.clear();
-- 
2.43.0


From f821567292ef3c56da2982e21779a5f5bd7a3bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:25 +0000
Subject: [PATCH 30/59] fix: ordered_read_osm_pbf: do not wait forever for a
 header

---
 src/osm_decoder.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index 676f371..5e3b536 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -77,6 +77,12 @@ namespace{
 			reader(data_source, 64<<20){
 		}
 
+		OsmPBFDecompressor&operator=(OsmPBFDecompressor&&o){
+			reader = std::move(o.reader);
+			status = o.status.load();
+			return *this;
+		}
+
 		unsigned long long minimum_read_size() const {
 			return (64 << 20);
 		}
@@ -86,7 +92,7 @@ namespace{
 		}
 
 		std::function<unsigned long long(char*, unsigned long long)> get_read_function_object(){
-			return [&](char*buffer, unsigned long long how_much_to_read)->unsigned long long{
+			auto read_block = [&](char*buffer, unsigned long long how_much_to_read)->unsigned long long{
 				assert(how_much_to_read >= minimum_read_size());
 
 				const char*blob_begin, *blob_end;
@@ -240,9 +246,20 @@ namespace{
 					return uncompressed_data_size + 4;
 				}
 			};
+
+			return [=](char*buffer, unsigned long long how_much_to_read)->unsigned long long{
+				try{
+					unsigned long long bytes_read = read_block(buffer, how_much_to_read);
+					status |= is_header_info_available_bit; // Even if the file ends without any block
+					return bytes_read;
+				}catch(...){
+					status |= is_header_info_available_bit; // There will be no further information
+					throw;
+				}
+			};
 		}
 	private:
-		uint64_t status;
+		std::atomic<uint64_t>status; // written by the thread of the reader that reads from this object
 		BufferedAsynchronousReader reader;
 	};
 }
-- 
2.43.0


From d1b609f4947f28b2fa4de5a78790a4422bf0d331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:30 +0000
Subject: [PATCH 31/59] fix: BufferedAsynchronousReader: hold the lock when
 reporting an exception

---
 src/buffered_asynchronous_reader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buffered_asynchronous_reader.cpp b/src/buffered_asynchronous_reader.cpp
index 9ecc5c8..e0326b5 100644
--- a/src/buffered_asynchronous_reader.cpp
+++ b/src/buffered_asynchronous_reader.cpp
@@ -131,6 +131,8 @@ BufferedAsynchronousReader::BufferedAsynchronousReader(
 					ptr->worker_thread_has_done_something.notify_one();
 				}
 			}catch(...){
+				if(!guard.owns_lock())
+					guard.lock();
 				ptr->read_exception = std::current_exception();
 				ptr->worker_thread_has_done_something.notify_one();
 			}
-- 
2.43.0


From f6175a167a445c9d22036efe1829ef8125b38bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:53 +0000
Subject: [PATCH 32/59] fix: derive a missing via node also if several arcs of
 the to-way leave it

---
 src/osm_graph_builder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/osm_graph_builder.cpp b/src/osm_graph_builder.cpp
index c5e0130..bcd058c 100644
--- a/src/osm_graph_builder.cpp
+++ b/src/osm_graph_builder.cpp
@@ -523,10 +523,10 @@ OSMRoutingGraph load_osm_routing_graph_from_pbf(
 						for(auto i=first_index_of_way[in->to_way]; i!=first_index_of_way[in->to_way+1]; ++i){
 							auto arc = index_to_arc[i];
 							if(is_head_of_from_way[tail[arc]]){
-								if(via_node != invalid_id){
-									second_via_node = tail[arc];
-								} else {
+								if(via_node == invalid_id){
 									via_node = tail[arc];
+								} else if(via_node != tail[arc]) {
+									second_via_node = tail[arc];
 								}
 							}
 						}
-- 
2.43.0


From 5216f5012d39e732c708e0abc9b66a1c55ac951f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:12 +0000
Subject: [PATCH 33/59] fix: a mandatory turn with from = to only forbids
 leaving the way

---
 src/osm_graph_builder.cpp | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/osm_graph_builder.cpp b/src/osm_graph_builder.cpp
index bcd058c..ad63d42 100644
--- a/src/osm_graph_builder.cpp
+++ b/src/osm_graph_builder.cpp
@@ -472,7 +472,6 @@ OSMRoutingGraph load_osm_routing_graph_from_pbf(
 				}
 
 				std::vector<bool> is_head_of_from_way(node_count, false);
-				std::vector<unsigned> incomming_arc_of_way_into_node(node_count, invalid_id);
 
 				unsigned repaired_count = 0;
 				unsigned no_via_count = 0;
@@ -491,23 +490,18 @@ OSMRoutingGraph load_osm_routing_graph_from_pbf(
 						++in;
 					} else if(in->from_way == in->to_way && in->category == OSMTurnRestrictionCategory::mandatory){
 						for(auto i=first_index_of_way[in->from_way]; i!=first_index_of_way[in->from_way+1]; ++i){
-							auto arc = index_to_arc[i];
-							incomming_arc_of_way_into_node[head[arc]] = arc;
-						}
-
-						for(auto i=first_index_of_way[in->from_way]; i!=first_index_of_way[in->from_way+1]; ++i){
-							auto out_arc = index_to_arc[i];
-							auto via_node = tail[out_arc];
-							auto in_arc = incomming_arc_of_way_into_node[via_node];
-							if(in_arc != invalid_id)
-								for(unsigned not_out_arc=first_out[via_node]; not_out_arc!=first_out[via_node+1]; ++not_out_arc)
-									if(not_out_arc != out_arc)
-										add_forbidden_turn(in_arc, not_out_arc);
-						}
-
-						for(auto i=first_index_of_way[in->from_way]; i!=first_index_of_way[in->from_way+1]; ++i){
-							auto arc = index_to_arc[i];
-							incomming_arc_of_way_into_node[head[arc]] = invalid_id;
+							auto in_arc = index_to_arc[i];
+							auto via_node = head[in_arc];
+
+							bool does_way_continue = false;
+							for(unsigned out_arc=first_out[via_node]; out_arc!=first_out[via_node+1]; ++out_arc)
+								if(way[out_arc] == in->from_way)
+									does_way_continue = true;
+
+							if(does_way_continue)
+								for(unsigned out_arc=first_out[via_node]; out_arc!=first_out[via_node+1]; ++out_arc)
+									if(way[out_arc] != in->from_way)
+										add_forbidden_turn(in_arc, out_arc);
 						}
 						++in;
 						++go_straight_count;
-- 
2.43.0


From 224187211edfb09b121ae4d968ce237c5dec9fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:52 +0000
Subject: [PATCH 34/59] fix: travel time of OSM arcs longer than 238 km
 overflowed

---
 src/osm_extract.cpp | 9 ++++++---
 src/osm_simple.cpp  | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/osm_extract.cpp b/src/osm_extract.cpp
index 3a46833..25e7c0b 100644
--- a/src/osm_extract.cpp
+++ b/src/osm_extract.cpp
@@ -95,9 +95,12 @@ int main(int argc, char*argv[]){
 
 		std::vector<uint32_t>travel_time = routing_graph.geo_distance;
 		for(unsigned a=0; a<arc_count; ++a){
-			travel_time[a] *= 18000;
-			travel_time[a] /= way_speed[routing_graph.way[a]];
-			travel_time[a] /= 5;
+			// The product does not fit into 32 bits if the arc is longer than 238km
+			uint64_t arc_travel_time = travel_time[a];
+			arc_travel_time *= 18000;
+			arc_travel_time /= way_speed[routing_graph.way[a]];
+			arc_travel_time /= 5;
+			travel_time[a] = arc_travel_time;
 		}
 
 		{
diff --git a/src/osm_simple.cpp b/src/osm_simple.cpp
index 5410e1f..2d4bfff 100644
--- a/src/osm_simple.cpp
+++ b/src/osm_simple.cpp
@@ -51,9 +51,12 @@ SimpleOSMCarRoutingGraph simple_load_osm_car_routing_graph_from_pbf(
 
 	ret.travel_time = ret.geo_distance;
 	for(unsigned a=0; a<ret.travel_time.size(); ++a){
-		ret.travel_time[a] *= 18000;
-		ret.travel_time[a] /= way_speed[routing_graph.way[a]];
-		ret.travel_time[a] /= 5;
+		// The product does not fit into 32 bits if the arc is longer than 238km
+		uint64_t travel_time = ret.travel_time[a];
+		travel_time *= 18000;
+		travel_time /= way_speed[routing_graph.way[a]];
+		travel_time /= 5;
+		ret.travel_time[a] = travel_time;
 	}
 
 	ret.forbidden_turn_from_arc = std::move(routing_graph.forbidden_turn_from_arc);
-- 
2.43.0


From d4ab72c4de6f1ed1399b58588bb1f986e898b290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:25 +0000
Subject: [PATCH 35/59] fix: FileDataSource::size threw on success

---
 src/file_data_source.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_data_source.cpp b/src/file_data_source.cpp
index 0ad4ed9..5b6a351 100644
--- a/src/file_data_source.cpp
+++ b/src/file_data_source.cpp
@@ -73,7 +73,7 @@ unsigned long long FileDataSource::size()const{
 		return 0;
 	else{
 		struct ::stat buf;
-		if(!::fstat(file_descriptor, &buf)){
+		if(::fstat(file_descriptor, &buf) == -1){
 			int error = errno;
 			throw std::runtime_error(std::string("Could not determine the size of a file open for reading. The errno is ")+std::to_string(error)+". strerror(errno) says the following : "+strerror(error));
 		}
-- 
2.43.0


From 87f9ce9ccd04634b3d6d6e5e69931db23b07851c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:09 +0000
Subject: [PATCH 36/59] fix: FileDataSource move assignment leaked the file
 that was open

---
 src/file_data_source.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/file_data_source.cpp b/src/file_data_source.cpp
index 5b6a351..cfa2e2b 100644
--- a/src/file_data_source.cpp
+++ b/src/file_data_source.cpp
@@ -37,8 +37,11 @@ FileDataSource::FileDataSource(FileDataSource&&o):
 }
 
 const FileDataSource&FileDataSource::operator=(FileDataSource&&o){
-	file_descriptor = o.file_descriptor;
-	o.file_descriptor = -1;
+	if(this != &o){
+		close();
+		file_descriptor = o.file_descriptor;
+		o.file_descriptor = -1;
+	}
 	return *this;
 }
 
@@ -114,8 +117,11 @@ FileDataSource::FileDataSource(FileDataSource&&o):
 }
 
 const FileDataSource&FileDataSource::operator=(FileDataSource&&o){
-	file_descriptor = o.file_descriptor;
-	o.file_descriptor = nullptr;
+	if(this != &o){
+		close();
+		file_descriptor = o.file_descriptor;
+		o.file_descriptor = nullptr;
+	}
 	return *this;
 }
 
-- 
2.43.0


From 0745405fc71cf642a884ed992dda23c53655b839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:12 +0000
Subject: [PATCH 37/59] fix: decode_vector: print 8 bit integers as numbers

---
 src/decode_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decode_vector.cpp b/src/decode_vector.cpp
index ab8afe2..1a2f639 100644
--- a/src/decode_vector.cpp
+++ b/src/decode_vector.cpp
@@ -13,7 +13,7 @@ void convert_num_data(const string&input_vector_file){
 	vector<T>v = load_vector<T>(input_vector_file);
 
 	for(auto&x:v)
-		cout << std::setprecision(std::numeric_limits<T>::digits10+1) << x << '\n';
+		cout << std::setprecision(std::numeric_limits<T>::digits10+1) << +x << '\n';
 }
 
 string replace_all_substrings(string subject, const string& search, const string& replace) {
-- 
2.43.0


From d1109429bb0fd27ae02b7eb669f9254a3d581f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:12 +0000
Subject: [PATCH 38/59] fix: decode_vector: print floating point numbers with
 enough digits

---
 src/decode_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decode_vector.cpp b/src/decode_vector.cpp
index 1a2f639..c255180 100644
--- a/src/decode_vector.cpp
+++ b/src/decode_vector.cpp
@@ -13,7 +13,7 @@ void convert_num_data(const string&input_vector_file){
 	vector<T>v = load_vector<T>(input_vector_file);
 
 	for(auto&x:v)
-		cout << std::setprecision(std::numeric_limits<T>::digits10+1) << +x << '\n';
+		cout << std::setprecision(std::numeric_limits<T>::max_digits10) << +x << '\n';
 }
 
 string replace_all_substrings(string subject, const string& search, const string& replace) {
-- 
2.43.0


From 4979dc66717d54e59827f6234d132bf5aa819fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:12 +0000
Subject: [PATCH 39/59] fix: encode_vector: unescape strings in a single pass

---
 src/encode_vector.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/encode_vector.cpp b/src/encode_vector.cpp
index 4f25cb6..5072a88 100644
--- a/src/encode_vector.cpp
+++ b/src/encode_vector.cpp
@@ -42,20 +42,25 @@ void convert_uint64_data(const string&output_vector_file){
 	save_vector(output_vector_file, v);
 }
 
-string replace_all_substrings(string subject, const string& search, const string& replace) {
-    size_t pos = 0;
-    while ((pos = subject.find(search, pos)) != std::string::npos) {
-         subject.replace(pos, search.length(), replace);
-         pos += replace.length();
-    }
-    return subject;
+// Undoes the escaping of decode_vector, which replaces a backslash by two backslashes and a new line by a backslash and a n
+string unescape(const string&escaped) {
+	string unescaped;
+	for(size_t i=0; i<escaped.size(); ++i){
+		if(escaped[i] == '\\' && i+1 < escaped.size() && (escaped[i+1] == '\\' || escaped[i+1] == 'n')){
+			++i;
+			unescaped += escaped[i] == 'n' ? '\n' : '\\';
+		}else{
+			unescaped += escaped[i];
+		}
+	}
+	return unescaped;
 }
 
 void convert_string_data(const string&output_vector_file){
 	string line;
 	vector<string>v;
 	while(getline(cin, line)){
-		v.push_back(replace_all_substrings(replace_all_substrings(line, "\\\\", "\\"), "\\n", "\n"));
+		v.push_back(unescape(line));
 	}
 	save_vector(output_vector_file, v);
 }
-- 
2.43.0


From 85d2877922dc08131bb0170c477b8217d362d243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:12 +0000
Subject: [PATCH 40/59] fix: encode_vector: reject negative numbers also for
 uint64

---
 src/encode_vector.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/encode_vector.cpp b/src/encode_vector.cpp
index 5072a88..c7f34a9 100644
--- a/src/encode_vector.cpp
+++ b/src/encode_vector.cpp
@@ -37,6 +37,9 @@ void convert_uint64_data(const string&output_vector_file){
 	string line;
 	vector<unsigned long long>v;
 	while(getline(cin, line)){
+		// stoull silently wraps around negative numbers
+		if(line.find('-') != string::npos)
+			throw runtime_error("The number \""+line+"\" is too small, min is \"0\"");
 		v.push_back(stoull(line));
 	}
 	save_vector(output_vector_file, v);
-- 
2.43.0


From 135fb98e254e5cc8b23d7d14ec376502c36eb77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:29 +0000
Subject: [PATCH 41/59] fix: run_dijkstra, run_contraction_hierarchy_query: do
 not divide by a query count of 0

---
 src/run_contraction_hierarchy_query.cpp | 3 ++-
 src/run_dijkstra.cpp                    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/run_contraction_hierarchy_query.cpp b/src/run_contraction_hierarchy_query.cpp
index ff3ff84..c010dd1 100644
--- a/src/run_contraction_hierarchy_query.cpp
+++ b/src/run_contraction_hierarchy_query.cpp
@@ -67,7 +67,8 @@ int main(int argc, char*argv[]){
 		cout << "done" << endl;
 
 		cout << "max running time : " << time_max << "musec" << endl;
-		cout << "avg running time : " << time_sum/query_count << "musec" << endl;
+		if(query_count != 0)
+			cout << "avg running time : " << time_sum/query_count << "musec" << endl;
 
 		save_vector(distance_file, distance);
 
diff --git a/src/run_dijkstra.cpp b/src/run_dijkstra.cpp
index 0115a6a..286a9eb 100644
--- a/src/run_dijkstra.cpp
+++ b/src/run_dijkstra.cpp
@@ -106,7 +106,8 @@ int main(int argc, char*argv[]){
 		cout << "done" << endl;
 
 		cout << "max running time : " << time_max << "musec" << endl;
-		cout << "avg running time : " << time_sum/query_count << "musec" << endl;
+		if(query_count != 0)
+			cout << "avg running time : " << time_sum/query_count << "musec" << endl;
 
 		save_vector(distance_file, distance);
 
-- 
2.43.0


From b2e9cd1212058e583cc645e123f52a86356af250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:29 +0000
Subject: [PATCH 42/59] fix: run_dijkstra: accept graphs without arcs

---
 src/run_dijkstra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/run_dijkstra.cpp b/src/run_dijkstra.cpp
index 286a9eb..83ebb88 100644
--- a/src/run_dijkstra.cpp
+++ b/src/run_dijkstra.cpp
@@ -56,7 +56,7 @@ int main(int argc, char*argv[]){
 			throw runtime_error("The first element of first out must be 0.");
 		if(first_out.back() != arc_count)
 			throw runtime_error("The last element of first out must be the arc count.");
-		if(max_element_of(head) >= node_count)
+		if(!head.empty() && max_element_of(head) >= node_count)
 			throw runtime_error("The head vector contains an out-of-bounds node id.");
 		if(weight.size() != arc_count)
 			throw runtime_error("The weight vector must be as long as the number of arcs");
-- 
2.43.0


From 92b3df2c338e722faa1304d227c72bb889156568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:29 +0000
Subject: [PATCH 43/59] fix: run_contraction_hierarchy_query: reject source and
 target vectors of different lengths

---
 src/run_contraction_hierarchy_query.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/run_contraction_hierarchy_query.cpp b/src/run_contraction_hierarchy_query.cpp
index c010dd1..e79ae44 100644
--- a/src/run_contraction_hierarchy_query.cpp
+++ b/src/run_contraction_hierarchy_query.cpp
@@ -42,6 +42,9 @@ int main(int argc, char*argv[]){
 
 		cout << "done" << endl;
 
+		if(source.size() != target.size())
+			throw runtime_error("The source and target vectors must be of the same length.");
+
 		const unsigned query_count = source.size();
 
 		cout << "Loaded " << query_count << " test queries" << endl;
-- 
2.43.0


From cf1130387f9fb870adf17ee3564f067bfb295097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:29 +0000
Subject: [PATCH 44/59] fix: show_path: the bounds checks were off by one

---
 src/show_path.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/show_path.cpp b/src/show_path.cpp
index 8bc072c..edc6876 100644
--- a/src/show_path.cpp
+++ b/src/show_path.cpp
@@ -36,9 +36,9 @@ int main(int argc, char*argv[]){
 
 		unsigned source, target;
 		while(cin >> source >> target){
-			if(source > ch.node_count())
+			if(source >= ch.node_count())
 				throw runtime_error("Source out of bounds");
-			if(target > ch.node_count())
+			if(target >= ch.node_count())
 				throw runtime_error("Target out of bounds");
 
 			ch_query.reset().add_source(source).add_target(target).run();
-- 
2.43.0


From 5cf036dd72303718c90fac8998bc7ddfe9f7ebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:29 +0000
Subject: [PATCH 45/59] fix: osm_extract: do not look for the longest arc of a
 graph without arcs

---
 src/osm_extract.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osm_extract.cpp b/src/osm_extract.cpp
index 25e7c0b..1aa913e 100644
--- a/src/osm_extract.cpp
+++ b/src/osm_extract.cpp
@@ -103,7 +103,7 @@ int main(int argc, char*argv[]){
 			travel_time[a] = arc_travel_time;
 		}
 
-		{
+		if(arc_count != 0){
 			unsigned max_arc = invalid_id;
 			unsigned max_travel_time = 0;
 			for(unsigned a=0; a<arc_count; ++a){
-- 
2.43.0


From 69fe18e7c9577bf9e62a0e5f61f3a7955ebca534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:29 +0000
Subject: [PATCH 46/59] fix: check_if_graph_is_valid: reject an empty first_out

---
 src/verify.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/verify.cpp b/src/verify.cpp
index 413b337..09ba142 100644
--- a/src/verify.cpp
+++ b/src/verify.cpp
@@ -6,6 +6,8 @@
 namespace RoutingKit{
 
 void check_if_graph_is_valid(const std::vector<unsigned>&first_out, const std::vector<unsigned>&head){
+	if(first_out.empty())
+		throw std::runtime_error("first_out must not be empty");
 	if(first_out.front() != 0)
 		throw std::runtime_error("first_out[0] must be 0");
 	if(first_out.back() != head.size())
-- 
2.43.0


From 6bf66f5b2cd67e2d4ba0b4f1cc0d09b0426b486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:29 +0000
Subject: [PATCH 47/59] fix: DIMACS converters: report a missing header

---
 src/convert_road_dimacs_coordinates.cpp | 3 +++
 src/convert_road_dimacs_graph.cpp       | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/convert_road_dimacs_coordinates.cpp b/src/convert_road_dimacs_coordinates.cpp
index 110aef3..d1c9671 100644
--- a/src/convert_road_dimacs_coordinates.cpp
+++ b/src/convert_road_dimacs_coordinates.cpp
@@ -88,6 +88,9 @@ int main(int argc, char*argv[]){
 			}
 		}
 
+		if(!was_header_read)
+			throw std::runtime_error("Header is missing");
+
 		for(unsigned i=0; i<node_count; ++i)
 			if(!seen[i])
 				throw runtime_error("Position for node "+std::to_string(i)+" is missing");
diff --git a/src/convert_road_dimacs_graph.cpp b/src/convert_road_dimacs_graph.cpp
index 0d06d2b..560ece6 100644
--- a/src/convert_road_dimacs_graph.cpp
+++ b/src/convert_road_dimacs_graph.cpp
@@ -80,6 +80,8 @@ int main(int argc, char*argv[]){
 			}
 		}
 
+		if(!was_header_read)
+			throw std::runtime_error("The header is missing in dimacs file.");
 		if(next_arc != arc_count)
 			throw std::runtime_error("The arc count in the header ("+to_string(arc_count)+") does not correspond with the actual number of arcs ("+to_string(next_arc)+").");
 
-- 
2.43.0


From 99889303cf3bbc7f88feedb62bcba2efbcc65320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:52 +0000
Subject: [PATCH 48/59] fix: convert_road_dimacs_graph: reject negative weights

---
 src/convert_road_dimacs_graph.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/convert_road_dimacs_graph.cpp b/src/convert_road_dimacs_graph.cpp
index 560ece6..942ef06 100644
--- a/src/convert_road_dimacs_graph.cpp
+++ b/src/convert_road_dimacs_graph.cpp
@@ -5,6 +5,7 @@
 
 #include <iostream>
 #include <fstream>
+#include <limits>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -64,12 +65,13 @@ int main(int argc, char*argv[]){
 				weight.resize(arc_count);
 			}else{
 				std::string a;
-				unsigned h, t, w;
+				unsigned h, t;
+				long long w; // extracting a negative number to an unsigned silently wraps around
 				if(!(lin >> a >> t >> h >> w))
 					throw std::runtime_error("Can not parse line num "+std::to_string(line_num)+" \""+line+"\" in dimacs file.");
 				--h;
 				--t;
-				if(a != "a" || h >= node_count || t >= node_count)
+				if(a != "a" || h >= node_count || t >= node_count || w < 0 || w > numeric_limits<unsigned>::max())
 					throw std::runtime_error("Invalid arc in line num "+std::to_string(line_num)+" \""+line+"\" in dimacs file.");
 				if(next_arc < arc_count){
 					head[next_arc] = h;
-- 
2.43.0


From 74066a23691ede7003923be350132c4a59966eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:09 +0000
Subject: [PATCH 49/59] fix: report a CH whose order is no permutation instead
 of writing out of bounds

---
 src/contraction_hierarchy.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index ebd87dd..acd6f5f 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1193,6 +1193,8 @@ ContractionHierarchy ContractionHierarchy::build_given_order(
 void check_contraction_hierarchy_for_errors(const ContractionHierarchy&ch){
 	unsigned node_count = ch.rank.size();
 
+	if(!is_permutation(ch.order))
+		throw std::runtime_error("CH is invalid because: !is_permutation(ch.order)");
 	if(ch.rank != invert_permutation(ch.order))
 		throw std::runtime_error("CH is invalid because: ch.rank != invert_permutation(ch.order)");
 
-- 
2.43.0


From d80ce7b2b072611438cacd60590be479a99b8cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:08 +0000
Subject: [PATCH 50/59] fix: reject an empty first_ipp_of_arc instead of
 reading out of bounds

---
 src/verify.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/verify.cpp b/src/verify.cpp
index 09ba142..39c0367 100644
--- a/src/verify.cpp
+++ b/src/verify.cpp
@@ -27,6 +27,8 @@ void check_if_arc_ipp_are_valid(
 	unsigned period,
 	const std::vector<unsigned>&first_ipp_of_arc, const std::vector<unsigned>&ipp_departure_time, const std::vector<unsigned>&ipp_travel_time
 ){
+	if(first_ipp_of_arc.empty())
+		throw std::runtime_error("first_ipp_of_arc must not be empty");
 	if(first_ipp_of_arc.front() != 0)
 		throw std::runtime_error("first_ipp_of_arc[0] must be 0");
 	if(first_ipp_of_arc.back() != ipp_departure_time.size())
-- 
2.43.0


From 0e2f2d2fc14d0ffe80b4e85d8490ff76bde19786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:00 +0000
Subject: [PATCH 51/59] fix: accept dense nodes whose key-value array is
 present but empty

---
 src/osm_decoder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index 5e3b536..32759f3 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -438,6 +438,9 @@ namespace {
 
 				tag_map.clear();
 
+				// The array is also allowed to be present but empty, if no node has a tag.
+				const bool has_key_value_pairs = key_value_pairs_begin != key_value_pairs_end;
+
 				uint64_t osm_node_id = 0;
 				// The deltas are summed up as integers, so that the offsets are only added once and no rounding errors accumulate.
 				uint64_t latitude_sum = 0, longitude_sum = 0;
@@ -447,7 +450,7 @@ namespace {
 					longitude_sum += zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(longitude_begin, longitude_end));
 					double latitude = primblock_lat_offset + primblock_granularity * (int64_t)latitude_sum;
 					double longitude = primblock_lon_offset + primblock_granularity * (int64_t)longitude_sum;
-					if(key_value_pairs_begin != nullptr){
+					if(has_key_value_pairs){
 						key_list.clear();
 						value_list.clear();
 						for(;;){
-- 
2.43.0


From b754f0560dcd610ca023a2068ac610b5dd53406e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:30 +0000
Subject: [PATCH 52/59] fix: export_road_dimacs_graph, randomly_permute_nodes:
 report a first_out file that is empty or not sorted

---
 src/export_road_dimacs_graph.cpp | 7 +++++--
 src/randomly_permute_nodes.cpp   | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/export_road_dimacs_graph.cpp b/src/export_road_dimacs_graph.cpp
index 1f13460..7aebd3e 100644
--- a/src/export_road_dimacs_graph.cpp
+++ b/src/export_road_dimacs_graph.cpp
@@ -37,15 +37,16 @@ int main(int argc, char*argv[]){
 		vector<unsigned>first_out = load_vector<unsigned>(in_first_out_file);
 		vector<unsigned>head = load_vector<unsigned>(in_head_file);
 		vector<unsigned>weight = load_vector<unsigned>(in_weight_file);
-		vector<unsigned>tail = invert_inverse_vector(first_out);
 		
 		cout << "done" << endl;
 
 		const unsigned node_count = first_out.size()-1;
 		const unsigned arc_count = head.size();
 
-		if(first_out.front() != 0)
+		if(first_out.empty() || first_out.front() != 0)
 			throw runtime_error("The first element of first out must be 0.");
+		if(!is_sorted(first_out.begin(), first_out.end()))
+			throw runtime_error("The first out vector must be sorted.");
 		if(first_out.back() != arc_count)
 			throw runtime_error("The last element of first out must be the arc count.");
 		if(head.empty())
@@ -55,6 +56,8 @@ int main(int argc, char*argv[]){
 		if(weight.size() != arc_count)
 			throw runtime_error("The weight vector must be as long as the number of arcs");
 
+		vector<unsigned>tail = invert_inverse_vector(first_out);
+
 
 		cout << "Saving graph ... " << flush;
 
diff --git a/src/randomly_permute_nodes.cpp b/src/randomly_permute_nodes.cpp
index d0e183c..1968641 100644
--- a/src/randomly_permute_nodes.cpp
+++ b/src/randomly_permute_nodes.cpp
@@ -44,8 +44,10 @@ int main(int argc, char*argv[]){
 		const unsigned node_count = first_out.size()-1;
 		const unsigned arc_count = head.size();
 
-		if(first_out.front() != 0)
+		if(first_out.empty() || first_out.front() != 0)
 			throw runtime_error("The first element of first out must be 0.");
+		if(!is_sorted(first_out.begin(), first_out.end()))
+			throw runtime_error("The first out vector must be sorted.");
 		if(first_out.back() != arc_count)
 			throw runtime_error("The last element of first out must be the arc count.");
 		if(head.empty())
-- 
2.43.0


From 2af0bda2eb52f365c02ab4b94729791ec8b7db03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:53 +0000
Subject: [PATCH 53/59] fix: graph_to_dot, graph_to_svg,
 compute_nested_dissection_order: report graph files that do not fit together

---
 src/compute_nested_dissection_order.cpp | 18 ++++++++++++++++--
 src/graph_to_dot.cpp                    | 13 +++++++++++++
 src/graph_to_svg.cpp                    | 13 +++++++++++++
 3 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/compute_nested_dissection_order.cpp b/src/compute_nested_dissection_order.cpp
index e82de6f..908628d 100644
--- a/src/compute_nested_dissection_order.cpp
+++ b/src/compute_nested_dissection_order.cpp
@@ -3,6 +3,7 @@
 #include <routingkit/nested_dissection.h>
 #include <routingkit/timer.h>
 
+#include <algorithm>
 #include <iostream>
 #include <stdexcept>
 #include <vector>
@@ -35,14 +36,27 @@ int main(int argc, char*argv[]){
 		cout << "Loading Graph ... " << flush;
 
 		auto first_out = load_vector<unsigned>(first_out_file);
-		unsigned node_count = first_out.size()-1;
-		auto tail = invert_inverse_vector(first_out);
 		auto head = load_vector<unsigned>(head_file);
 		auto latitude = load_vector<float>(latitude_file);
 		auto longitude = load_vector<float>(longitude_file);
 
 		cout << "done" << endl;
 
+		if(first_out.empty() || first_out.front() != 0)
+			throw runtime_error("The first element of first out must be 0.");
+		if(!is_sorted(first_out.begin(), first_out.end()))
+			throw runtime_error("The first out vector must be sorted.");
+		if(first_out.back() != head.size())
+			throw runtime_error("The last element of first out must be the arc count.");
+		for(unsigned x:head)
+			if(x >= first_out.size()-1)
+				throw runtime_error("The head vector contains an out-of-bounds node id.");
+		if(latitude.size() != first_out.size()-1 || longitude.size() != first_out.size()-1)
+			throw runtime_error("The latitude and longitude vectors must be as long as the number of nodes");
+
+		unsigned node_count = first_out.size()-1;
+		auto tail = invert_inverse_vector(first_out);
+
 		cout << "Compute order ... " << flush;
 		timer = -get_micro_time();
 		auto cch_order = compute_nested_node_dissection_order_using_inertial_flow(node_count, tail, head, latitude, longitude);
diff --git a/src/graph_to_dot.cpp b/src/graph_to_dot.cpp
index 12ff15f..3bd2731 100644
--- a/src/graph_to_dot.cpp
+++ b/src/graph_to_dot.cpp
@@ -2,6 +2,7 @@
 #include <routingkit/timer.h>
 #include <routingkit/contraction_hierarchy.h>
 
+#include <algorithm>
 #include <iostream>
 #include <stdexcept>
 #include <vector>
@@ -35,6 +36,18 @@ int main(int argc, char*argv[]){
 
 		cout << "done" << endl;
 
+		if(first_out_arc.empty() || first_out_arc.front() != 0)
+			throw runtime_error("The first element of first out must be 0.");
+		if(!is_sorted(first_out_arc.begin(), first_out_arc.end()))
+			throw runtime_error("The first out vector must be sorted.");
+		if(first_out_arc.back() != head.size())
+			throw runtime_error("The last element of first out must be the arc count.");
+		for(unsigned x:head)
+			if(x >= first_out_arc.size()-1)
+				throw runtime_error("The head vector contains an out-of-bounds node id.");
+		if(weight.size() != head.size())
+			throw runtime_error("The weight vector must be as long as the number of arcs");
+
 		cout << "Writing dot ... " << flush;
 
 		std::ofstream out(dot_file);
diff --git a/src/graph_to_svg.cpp b/src/graph_to_svg.cpp
index 1fc6480..25abd0a 100644
--- a/src/graph_to_svg.cpp
+++ b/src/graph_to_svg.cpp
@@ -3,6 +3,7 @@
 #include <routingkit/contraction_hierarchy.h>
 #include <routingkit/min_max.h>
 
+#include <algorithm>
 #include <iostream>
 #include <stdexcept>
 #include <vector>
@@ -39,6 +40,18 @@ int main(int argc, char*argv[]){
 		
 		cout << "done" << endl;
 
+		if(first_out_arc.empty() || first_out_arc.front() != 0)
+			throw runtime_error("The first element of first out must be 0.");
+		if(!is_sorted(first_out_arc.begin(), first_out_arc.end()))
+			throw runtime_error("The first out vector must be sorted.");
+		if(first_out_arc.back() != head.size())
+			throw runtime_error("The last element of first out must be the arc count.");
+		for(unsigned x:head)
+			if(x >= first_out_arc.size()-1)
+				throw runtime_error("The head vector contains an out-of-bounds node id.");
+		if(latitude.size() != first_out_arc.size()-1 || longitude.size() != first_out_arc.size()-1)
+			throw runtime_error("The latitude and longitude vectors must be as long as the number of nodes");
+
 		float min_latitude = min_element_of(latitude);
 		float max_latitude = max_element_of(latitude);
 		
-- 
2.43.0


From 1ee87600f7a8b191dce1c07c00a91734169892d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:53 +0000
Subject: [PATCH 54/59] fix: compute_geographic_distance_weights, show_path:
 report coordinate files of the wrong length

---
 src/compute_geographic_distance_weights.cpp | 2 ++
 src/show_path.cpp                           | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/compute_geographic_distance_weights.cpp b/src/compute_geographic_distance_weights.cpp
index b137ad9..7ca976f 100644
--- a/src/compute_geographic_distance_weights.cpp
+++ b/src/compute_geographic_distance_weights.cpp
@@ -45,6 +45,8 @@ int main(int argc, char*argv[]){
 
 		cout << "Validity tests ... " << flush;
 		check_if_graph_is_valid(first_out, head);
+		if(latitude.size() != first_out.size()-1 || longitude.size() != first_out.size()-1)
+			throw runtime_error("The latitude and longitude vectors must be as long as the number of nodes");
 		cout << "done" << endl;
 
 
diff --git a/src/show_path.cpp b/src/show_path.cpp
index edc6876..de0e256 100644
--- a/src/show_path.cpp
+++ b/src/show_path.cpp
@@ -32,6 +32,9 @@ int main(int argc, char*argv[]){
 		vector<float>latitude = load_vector<float>(latitude_file);
 		vector<float>longitude = load_vector<float>(longitude_file);
 
+		if(latitude.size() != ch.node_count() || longitude.size() != ch.node_count())
+			throw runtime_error("The latitude and longitude vectors must be as long as the number of nodes");
+
 		ContractionHierarchyQuery ch_query(ch);		
 
 		unsigned source, target;
-- 
2.43.0


From 3bddb343defcb645872678d08663334b87b18827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:53 +0000
Subject: [PATCH 55/59] fix: run_dijkstra, run_contraction_hierarchy_query:
 report query nodes that are out of bounds

---
 src/run_contraction_hierarchy_query.cpp | 6 ++++++
 src/run_dijkstra.cpp                    | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/run_contraction_hierarchy_query.cpp b/src/run_contraction_hierarchy_query.cpp
index e79ae44..3802141 100644
--- a/src/run_contraction_hierarchy_query.cpp
+++ b/src/run_contraction_hierarchy_query.cpp
@@ -44,6 +44,12 @@ int main(int argc, char*argv[]){
 
 		if(source.size() != target.size())
 			throw runtime_error("The source and target vectors must be of the same length.");
+		for(unsigned x:source)
+			if(x >= ch.node_count())
+				throw runtime_error("The source vector contains an out-of-bounds node id.");
+		for(unsigned x:target)
+			if(x >= ch.node_count())
+				throw runtime_error("The target vector contains an out-of-bounds node id.");
 
 		const unsigned query_count = source.size();
 
diff --git a/src/run_dijkstra.cpp b/src/run_dijkstra.cpp
index 83ebb88..1d9fcc6 100644
--- a/src/run_dijkstra.cpp
+++ b/src/run_dijkstra.cpp
@@ -72,6 +72,12 @@ int main(int argc, char*argv[]){
 
 		if(source.size() != target.size())
 			throw runtime_error("The source and target vectors must be of the same length.");
+		for(unsigned x:source)
+			if(x >= node_count)
+				throw runtime_error("The source vector contains an out-of-bounds node id.");
+		for(unsigned x:target)
+			if(x >= node_count)
+				throw runtime_error("The target vector contains an out-of-bounds node id.");
 			
 
 		unsigned query_count = source.size();
-- 
2.43.0


From 7f8e7585e15901758f83b8882185469030a7e623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:53 +0000
Subject: [PATCH 56/59] fix: generate_dijkstra_rank_test_queries: report a
 weight file of the wrong length

---
 src/generate_dijkstra_rank_test_queries.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/generate_dijkstra_rank_test_queries.cpp b/src/generate_dijkstra_rank_test_queries.cpp
index 5af385f..f7f6ee2 100644
--- a/src/generate_dijkstra_rank_test_queries.cpp
+++ b/src/generate_dijkstra_rank_test_queries.cpp
@@ -49,6 +49,8 @@ int main(int argc, char*argv[]){
 
 		cout << "Validity tests ... " << flush;
 		check_if_graph_is_valid(first_out, head);
+		if(weight.size() != head.size())
+			throw runtime_error("The weight vector must be as long as the number of arcs");
 		cout << "done" << endl;
 
 		auto tail = invert_inverse_vector(first_out);
-- 
2.43.0


From 757a8a73f843a39ac7e3d756478e788b32b7e2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:47 +0000
Subject: [PATCH 57/59] fix: vector generators: draw from ranges beyond 2^31

---
 src/generate_dijkstra_rank_test_queries.cpp | 2 +-
 src/generate_random_node_list.cpp           | 2 +-
 src/generate_random_source_times.cpp        | 2 +-
 src/generate_test_queries.cpp               | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/generate_dijkstra_rank_test_queries.cpp b/src/generate_dijkstra_rank_test_queries.cpp
index f7f6ee2..a15009d 100644
--- a/src/generate_dijkstra_rank_test_queries.cpp
+++ b/src/generate_dijkstra_rank_test_queries.cpp
@@ -66,7 +66,7 @@ int main(int argc, char*argv[]){
 		cout << "Generating test queries ... " << flush;
 
 		std::default_random_engine gen(random_seed);
-		std::uniform_int_distribution<int> dist(0, node_count-1);
+		std::uniform_int_distribution<unsigned> dist(0, node_count-1);
 
 		Dijkstra dij(first_out, tail, head);
 
diff --git a/src/generate_random_node_list.cpp b/src/generate_random_node_list.cpp
index 06673c9..5aefaef 100644
--- a/src/generate_random_node_list.cpp
+++ b/src/generate_random_node_list.cpp
@@ -35,7 +35,7 @@ int main(int argc, char*argv[]){
 		cout << "Generating ... " << flush;
 
 		default_random_engine gen(random_seed);
-		uniform_int_distribution<int> dist(0, node_count-1);
+		uniform_int_distribution<unsigned> dist(0, node_count-1);
 		vector<unsigned>v(query_count);
 		for(auto&x:v)
 			x = dist(gen);
diff --git a/src/generate_random_source_times.cpp b/src/generate_random_source_times.cpp
index a65e009..ea25a51 100644
--- a/src/generate_random_source_times.cpp
+++ b/src/generate_random_source_times.cpp
@@ -35,7 +35,7 @@ int main(int argc, char*argv[]){
 		cout << "Generating ... " << flush;
 
 		default_random_engine gen(random_seed);
-		uniform_int_distribution<int> dist(0, period-1);
+		uniform_int_distribution<unsigned> dist(0, period-1);
 		vector<unsigned>source_time(time_count);
 		for(auto&x:source_time)
 			x = dist(gen);
diff --git a/src/generate_test_queries.cpp b/src/generate_test_queries.cpp
index 8883798..a90a56e 100644
--- a/src/generate_test_queries.cpp
+++ b/src/generate_test_queries.cpp
@@ -34,7 +34,7 @@ int main(int argc, char*argv[]){
 		cout << "Generating test queries ... " << flush;
 
 		std::default_random_engine gen(random_seed);
-		std::uniform_int_distribution<int> dist(0, node_count-1);
+		std::uniform_int_distribution<unsigned> dist(0, node_count-1);
 
 		for(unsigned i=0; i<query_count; ++i){
 			source[i] = dist(gen);
-- 
2.43.0


From 820f04b6799fa1badc2abdc9c65ef7027a9b076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:18 +0000
Subject: [PATCH 58/59] fix: FileDataSource without POSIX: report operations on
 a closed source

---
 src/file_data_source.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/file_data_source.cpp b/src/file_data_source.cpp
index cfa2e2b..de0dd71 100644
--- a/src/file_data_source.cpp
+++ b/src/file_data_source.cpp
@@ -142,7 +142,7 @@ void FileDataSource::close(){
 }
 
 void FileDataSource::rewind(){
-	if(fseek(file_descriptor, 0, SEEK_SET))
+	if(file_descriptor == nullptr || fseek(file_descriptor, 0, SEEK_SET))
 		throw std::runtime_error("Could not rewind file opened for reading.");
 }
 
@@ -169,6 +169,8 @@ unsigned long long FileDataSource::size()const{
 
 namespace{
 	unsigned long long my_read(FILE* file_descriptor, char*buffer, unsigned long long to_read){
+		if(file_descriptor == nullptr)
+			throw std::runtime_error("fread failed because the file is not open.");
 		size_t s = ::fread(buffer, 1, to_read, file_descriptor);
 		int err = ferror(file_descriptor);
 		if(err != 0)
-- 
2.43.0


From 7c6d4a66faf7483d84cca1809f96477ad96c87b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:54 +0000
Subject: [PATCH 59/59] fix: load_vector, load_bit_vector: report a read that
 fails

---
 include/routingkit/vector_io.h | 2 ++
 src/vector_io.cpp              | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/routingkit/vector_io.h b/include/routingkit/vector_io.h
index 29ee057..b68e898 100644
--- a/include/routingkit/vector_io.h
+++ b/include/routingkit/vector_io.h
@@ -37,6 +37,8 @@ std::vector<T>load_vector(const std::string&file_name){
 	in.seekg(0, std::ios::beg);
 	std::vector<T>vec(file_size / sizeof(T));
 	in.read(reinterpret_cast<char*>(&vec[0]), file_size);
+	if(!in)
+		throw std::runtime_error("Could not read from \""+file_name+"\".");
 	return vec; // NVRO
 }
 
diff --git a/src/vector_io.cpp b/src/vector_io.cpp
index 673dd33..9187188 100644
--- a/src/vector_io.cpp
+++ b/src/vector_io.cpp
@@ -65,6 +65,8 @@ BitVector load_bit_vector(const std::string&file_name){
 		throw std::runtime_error("File \""+file_name+"\" can not be a bit vector of the requested size because the size in the header and the file size do not correspond.");
 	BitVector vec(size);
 	in.read(reinterpret_cast<char*>(vec.data()), (((size+511)/512) * 64));
+	if(!in)
+		throw std::runtime_error("Could not read from \""+file_name+"\".");
 	return vec; // NVRO
 }
 
-- 
2.43.0

