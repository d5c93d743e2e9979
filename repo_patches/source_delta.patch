From 630536f02bd4eef90e8be85312d8efc70f60dad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 01/24] fix: an index of zero probability is never picked from
 a distribution

---
 src/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.hpp b/src/utils.hpp
index f86478a..8adb835 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -14,7 +14,7 @@ class Utils{
 		double const u = func::rand_uniform(); //Sample a random number between [0,1[
 		//NOTE improve with a log search :]
 		for(int i = 0; i < size; ++i){
-			if(u <= probabilities[i])
+			if(u < probabilities[i])
 				return i;
 		}
 		return size;//NOTE: this should never happen unless the last element of *probabilities* is less than 1
-- 
2.43.0


From f369ae7b834480ea814f6069e99be71d81847466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 02/24] fix: reservoirs never select a slot past the end

A draw of exactly 1 (the documented range is [0,1]) gave index sample_size, and made
the exponential reservoir grow past its size.
---
 src/reservoir_sampling.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/reservoir_sampling.hpp b/src/reservoir_sampling.hpp
index f7cc7b1..5a011d1 100644
--- a/src/reservoir_sampling.hpp
+++ b/src/reservoir_sampling.hpp
@@ -65,8 +65,12 @@ class ReservoirSampling : public Reservoir<element_type, sample_size>{
 			//We use counter+1 because the current item is not counted in counter yet
 			double const threshold = static_cast<double>(sample_size) / static_cast<double>(counter+1);
 			double const rnd = func::random();
-			if(rnd < threshold)
+			if(rnd < threshold){
 				idx = func::floor(func::random() * static_cast<double>(sample_size));
+				//A draw of exactly 1 selects the last slot
+				if(idx >= static_cast<int>(sample_size))
+					idx = sample_size - 1;
+			}
 		}
 		counter += 1;
 		return idx;
@@ -113,10 +117,13 @@ class ExponentialReservoirSampling : public Reservoir<element_type, sample_size>
 		double const filling_ratio = static_cast<double>(counter)/static_cast<double>(sample_size);
 		double const remove_element = func::random();
 		int index;
-		if(remove_element < filling_ratio){
+		if(counter >= sample_size || remove_element < filling_ratio){
 			double const rdn = func::random();
 			//NOTE: index range from [0, counter[.
 			index = func::floor(rdn * static_cast<double>(counter));
+			//A draw of exactly 1 selects the last slot
+			if(index >= static_cast<int>(counter))
+				index = counter - 1;
 		}
 		else{
 			index = counter;
-- 
2.43.0


From ba2e049093aec9c347f3cc4aa9a780a3a1a102e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:44 +0000
Subject: [PATCH 03/24] fix: backpropagation does not read the layer size
 before the first

layer_size[-1] was read at layer 0 (undefined behaviour, and an overflow of the product).
---
 src/perceptron.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/perceptron.hpp b/src/perceptron.hpp
index 1b20ed4..1f7fdc4 100644
--- a/src/perceptron.hpp
+++ b/src/perceptron.hpp
@@ -165,7 +165,7 @@ class MultiLayerPerceptron{
 
 			for(int layer_idx = layer_count - 2; layer_idx >= 0; --layer_idx){
 				output_base -= layer_size[layer_idx];
-				weight_base -= (layer_size[layer_idx-1]+1) * layer_size[layer_idx];
+				//At this point weight_base is the base of the weights between layer_idx and layer_idx+1
 				for(int neuron_idx = 0; neuron_idx <= layer_size[layer_idx]; ++neuron_idx){
 					double neuron_error = 0;
 					double current_neuron_output = 1;
@@ -174,7 +174,7 @@ class MultiLayerPerceptron{
 					for(int weight_idx = 0; weight_idx < layer_size[layer_idx+1]; ++weight_idx){
 
 						int neuron_next_layer = output_base + layer_size[layer_idx] + weight_idx;
-						int weight_next_layer = weight_base + (layer_size[layer_idx-1]+1) * layer_size[layer_idx] + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
+						int weight_next_layer = weight_base + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
 						neuron_error += neuron_output[neuron_next_layer] * weights[weight_next_layer];
 					}
 					neuron_error *= func::derivative(current_neuron_output);
@@ -183,13 +183,15 @@ class MultiLayerPerceptron{
 					for(int weight_idx = 0; weight_idx < layer_size[layer_idx+1]; ++weight_idx){
 
 						int neuron_next_layer = output_base + layer_size[layer_idx] + weight_idx;
-						int weight_next_layer = weight_base + (layer_size[layer_idx-1]+1) * layer_size[layer_idx] + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
+						int weight_next_layer = weight_base + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
 						double d_weight = - learning_rate * current_neuron_output * neuron_output[neuron_next_layer];
 						weights[weight_next_layer] += d_weight;
 					}
 					if(neuron_idx < layer_size[layer_idx])
 						neuron_output[output_base + neuron_idx] = neuron_error;
 				}
+				if(layer_idx > 0) //The first layer does not have weights
+					weight_base -= (layer_size[layer_idx-1]+1) * layer_size[layer_idx];
 			}
 
 			return (sum_error_output/layer_size[layer_count-1]);
-- 
2.43.0


From c7d5c3d0eb1b6e86108d26e2804fb6588a7ffe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 04/24] fix: MC-NN finds the nearest micro-cluster at any
 distance

---
 src/mc_nn.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index beec111..3c8f477 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -229,7 +229,7 @@ class MCNN{
 			//NOTE: finding both the nearest and the nearest with class could be done in one pass, but I choose to use 2 different functions to make it clearer.
 			clusters[cluster_idx].centroid(centroid);
 			double const distance = euclidean_distance(features, centroid);
-			if(distance < shortest_distance){
+			if(nearest_cluster < 0 || distance < shortest_distance){
 				nearest_cluster = cluster_idx;
 				shortest_distance = distance;
 			}
@@ -259,7 +259,7 @@ class MCNN{
 			clusters[cluster_idx].centroid(centroid);
 			//Compute the squared euclidean distance
 			double const distance = euclidean_distance(features, centroid);
-			if(distance < shortest_distance){
+			if(nearest_cluster < 0 || distance < shortest_distance){
 				nearest_cluster = cluster_idx;
 				shortest_distance = distance;
 			}
-- 
2.43.0


From cfd9d342b953e26606899ca4e61fae6fe3c59ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 05/24] fix: MC-NN cluster count follows replacement and
 cleaning

---
 src/mc_nn.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index 3c8f477..9ee7e5b 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -187,8 +187,9 @@ class MCNN{
 
 		clusters[new_idx].initialize(cluster_minus, clusters[cluster_idx].label, old_time, error_thr);
 		clusters[cluster_idx].initialize(cluster_plus, clusters[cluster_idx].label, old_time, error_thr);
+		if(!active[new_idx])
+			count_active_cluster += 1;
 		active[new_idx] = true;
-		count_active_cluster += 1;
 	}
 	/**
 	 * Compute the squared distance between two data point.
@@ -281,8 +282,10 @@ class MCNN{
 	 */
 	void clean_low_performance_clusters(void){
 		for(int i = 0; i < max_cluster; ++i)
-			if(active[i] == true && clusters[i].data_count > 1 && clusters[i].performance(timestamp) < performance_thr)
+			if(active[i] == true && clusters[i].data_count > 1 && clusters[i].performance(timestamp) < performance_thr){
 				active[i] = false;
+				count_active_cluster -= 1;
+			}
 	}
 	public:
 	/**
-- 
2.43.0


From df5981c150d9d03cf6ac7c25ae9972fd4a56c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 06/24] fix: an empty cuckoo filter is filled with the empty
 value

---
 src/cuckoo_filter.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cuckoo_filter.hpp b/src/cuckoo_filter.hpp
index fc6f279..aac608e 100644
--- a/src/cuckoo_filter.hpp
+++ b/src/cuckoo_filter.hpp
@@ -148,6 +148,7 @@ class CuckooFilter{
 	 * Basic constructor.
 	 */
 	CuckooFilter(){
+		clear();
 	}
 	/**
 	 * Add a new element to the filter.
@@ -240,7 +241,8 @@ class CuckooFilter{
 	 * Empty the filter.
 	 */
 	void clear(void){
-		for(unsigned char& byte : filter)
-			byte = 0;
+		for(int i = 0; i < bucket_count; ++i)
+			for(int j = 0; j < bucket_size; ++j)
+				set_entry(i, j, empty_value);
 	}
 };
-- 
2.43.0


From e14ddd31542964800148fddbdadb613e55fc6a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 07/24] fix: LTC keeps the point at the time of the previous
 value

---
 src/ltc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index 8022fe4..78bf827 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -120,7 +120,7 @@ class LTC{
 			to_transmit = last_transmit_point;
 			//Update the last_transmit_point
 			element_type tmp_param = (UL.value + LL.value) / 2;
-			last_transmit_point.timestamp = timestamp - 1;
+			last_transmit_point.timestamp = UL.timestamp;
 			last_transmit_point.value = tmp_param;
 			counter = 1;
 			add(timestamp, value);
-- 
2.43.0


From 7994e5de6a80916471f7db592615963bcc0a6ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 08/24] fix: LTC extends the limits with the slope they were
 computed with

---
 src/ltc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index 78bf827..582cb90 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -69,11 +69,11 @@ class LTC{
 			return true;
 
 		if(old_up_deriva < new_up_deriva) {
-			new_ul.value = (new_ul.timestamp - UL.timestamp) / time_unit_difference * old_up_deriva + UL.value;
+			new_ul.value = (new_ul.timestamp - UL.timestamp) * old_up_deriva * time_unit_difference + UL.value;
 		}
 
 		if(old_low_deriva > new_low_deriva) {
-			new_ll.value = (new_ll.timestamp - LL.timestamp) / time_unit_difference * old_low_deriva + LL.value;
+			new_ll.value = (new_ll.timestamp - LL.timestamp) * old_low_deriva * time_unit_difference + LL.value;
 		}
 		return false;
 	}
-- 
2.43.0


From 8e63462ddb8543062a9f813f1c16fae2f643a77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 09/24] fix: LTC limits are not rounded to the element type

---
 src/ltc.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index 582cb90..233208f 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -16,7 +16,15 @@ class LTC{
 		timestamp_type timestamp;
 		element_type value;
 	};
-	data_point last_transmit_point, UL, LL, new_ul, new_ll, to_transmit;
+	/*
+	 * Internal structure to describe a limit. It is not rounded to element_type, otherwise the limits drift.
+	 */
+	struct limit_point{
+		timestamp_type timestamp;
+		double value;
+	};
+	data_point last_transmit_point, to_transmit;
+	limit_point UL, LL, new_ul, new_ll;
 
 	int counter = 0; //Counter make sure the algorithm does not fail for the first 3 values
 
-- 
2.43.0


From 2a9a18f779ab19c3ce5ced6bf0445f596dd81ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 10/24] fix: shifting a chain moves along its nodes instead of
 overwriting them

---
 src/chained_reservoir.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 3a0224b..0312984 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -84,22 +84,22 @@ class ChainedReservoirSampling{
 	 * @param current the node that should replace head.
 	 */
 	void shift_chain(node& head, node& current){//TODO improve this to avoid overwriting elements
-		node& receiver = head;
-		node& mover = current;
+		node* receiver = &head;
+		node* mover = &current;
 		while(1){//TODO add security
-			receiver.element = mover.element;
-			receiver.timestamp = mover.timestamp;
-			if(mover.next != NULL){
-				mover = *mover.next;
-				receiver = *receiver.next;
+			receiver->element = mover->element;
+			receiver->timestamp = mover->timestamp;
+			if(mover->next != NULL){
+				mover = mover->next;
+				receiver = receiver->next;
 			}
 			else
 				break;
 		}
 		//Once everything is shifted, disable all following cells
-		while(receiver.next != NULL){
-			receiver = *receiver.next;
-			receiver.timestamp = 0;
+		while(receiver->next != NULL){
+			receiver = receiver->next;
+			receiver->timestamp = 0;
 		}
 	}
 	public:
-- 
2.43.0


From c2cc7ec5726c2f399da5a62abc4cfbae0f5398d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 11/24] fix: a timestamp declared obsolete is itself obsolete

---
 src/chained_reservoir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 0312984..d6e539f 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -170,7 +170,7 @@ class ChainedReservoirSampling{
 			node* current = &head;
 			bool do_shift = true;
 
-			while(current->timestamp < timestamp){
+			while(current->timestamp <= timestamp){
 				if(current->next == NULL){
 					do_shift = false;
 					break;
-- 
2.43.0


From 1b3cc2b65c1dcac8c38b74f19080558d01a931fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 12/24] fix: chained reservoir accepts the n-th element with
 probability k/n

---
 src/chained_reservoir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index d6e539f..72cb5c0 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -127,7 +127,7 @@ class ChainedReservoirSampling{
 			next[counter] = counter + 1 + round(funct::random() * (sample_size-1));
 		}
 		else{
-			double const threshold = (double)sample_size / (double)counter;
+			double const threshold = (double)sample_size / (double)(counter+1); //counter+1 because the current item is not counted in counter yet
 			double const rnd = funct::random();
 			if(rnd < threshold){
 				int const index = round(funct::random() * (sample_size-1));
-- 
2.43.0


From 99bfe2bfeb75aeeed3a713d5ccc40cb7ccb8ad23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 13/24] fix: a head with timestamp zero is not overwritten by
 its successor

---
 src/chained_reservoir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 72cb5c0..9fb073f 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -57,7 +57,7 @@ class ChainedReservoirSampling{
 		int i = 0;
 		//The only thing that could make this loop forever is a corruption the linked list of node that loop over the same data without empty space.
 		while(i < 5000){ //`i` is just a security
-			if(current->timestamp == 0){ // This cell is available
+			if(current != &head && current->timestamp == 0){ // This cell is available (the head is always in use)
 				current->element = e;
 				current->timestamp = timestamp;
 				return;
-- 
2.43.0


From d42fe6b9a79d9d60322070ac0ab72a2f2cda9b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:15 +0000
Subject: [PATCH 14/24] fix: a chain may hold more than 5000 successors

---
 src/chained_reservoir.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 9fb073f..be3d0d2 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -54,9 +54,8 @@ class ChainedReservoirSampling{
 	 */
 	void push_on_chain(node& head, element_type e, unsigned int const timestamp){
 		node* current = &head;
-		int i = 0;
 		//The only thing that could make this loop forever is a corruption the linked list of node that loop over the same data without empty space.
-		while(i < 5000){ //`i` is just a security
+		while(true){
 			if(current != &head && current->timestamp == 0){ // This cell is available (the head is always in use)
 				current->element = e;
 				current->timestamp = timestamp;
@@ -73,9 +72,7 @@ class ChainedReservoirSampling{
 			}
 
 			current = current->next;
-			i += 1;
 		}
-		assert(false);
 		//TODO maybe clear the chain if it is corrupted
 	}
 	/*
-- 
2.43.0


From ddcaceda57d4c86023e85dce858cdc6c828958f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:35 +0000
Subject: [PATCH 15/24] fix: every Hoeffding leaf takes counters of its own

---
 src/hoeffding_tree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index e6ac27d..55f71b2 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -50,6 +50,8 @@ class HoeffdingTree{
 			int const total_size_counters = compute_total_size_counters(tree->sum_feature_size);
 			int const tmp_preset = tree->buffer_preset - total_size_counters;
 			this->split_feature = - ((max_size - tmp_preset) / total_size_counters); //we need negative number because counters are store on the other side of buffer
+			//The counters are taken from the end of the buffer, otherwise the next leaf would get the same ones
+			tree->buffer_preset = tmp_preset;
 			reset_counters();
 			double const infinity = std::numeric_limits<float>::infinity();
 			for(int i = 0; i < feature_count; ++i){
-- 
2.43.0


From a15dd987933707ecebaab4522cb60cc01ccc4498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:37 +0000
Subject: [PATCH 16/24] fix: no node is built when the buffer is full

---
 src/hoeffding_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 55f71b2..5d554ed 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -328,7 +328,7 @@ class HoeffdingTree{
 		 * @param size The size to allocate (a must have for any new operator overload).
 		 * @param tree An additional parameter that indicates the tree of the node.
 		 */
-		void* operator new(size_t const size, HoeffdingTree& tree){
+		void* operator new(size_t const size, HoeffdingTree& tree) noexcept{
 			int const tmp_offset = tree.buffer_offset + size;
 			int const tmp_preset = tree.buffer_preset - compute_total_size_counters(tree.sum_feature_size);
 			if(tmp_offset > tmp_preset)
-- 
2.43.0


From 69800b81299bb24a206dbe83c1b7d4dd77151429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:39 +0000
Subject: [PATCH 17/24] fix: training does not go to the children of a node
 that could not split

---
 src/hoeffding_tree.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 5d554ed..1f41d98 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -504,7 +504,9 @@ class HoeffdingTree{
 		int const result = leaf->train(features, label, split_value);
 		if(result >= 0){
 			int const split_result = leaf->split(result, split_value);
-			//NOTE: it is very unlikely the node will split, so we don't check
+			//NOTE: when the node could not split, it has no children
+			if(split_result != 0)
+				return false;
 			if(features[result] <= split_value)
 				leaf->get_left_child()->train(features, label, split_value);
 			else
-- 
2.43.0


From 474b28441e2f7f97fd87f2469951738265e0957b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 18/24] fix: the split feature is the one the best limit
 belongs to

---
 src/hoeffding_tree.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 1f41d98..97a220d 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -234,11 +234,12 @@ class HoeffdingTree{
 			if(square_diff > epsilon && info_gain[best_split[0]] > 0){
 				split_value = limits[best_split[0]];
 				//Try to retrieve the feature concerned :>
-				int tmp_c = tree->features_size[0];
+				//NOTE: there is one limit less than there is bins
+				int tmp_c = tree->features_size[0]-1;
 				for(int f = 0; f < feature_count-1; ++f){
 					if(best_split[0] < tmp_c)
 						return f;
-					tmp_c += tree->features_size[f+1];
+					tmp_c += tree->features_size[f+1]-1;
 				}
 				//If the feature is not found, it must be the last one
 				return feature_count-1;
-- 
2.43.0


From 3534ef435d3491cfcf9369aadd68772beb9c687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:44 +0000
Subject: [PATCH 19/24] fix: the box of a new Hoeffding leaf is empty

---
 src/hoeffding_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 97a220d..55273df 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -55,8 +55,8 @@ class HoeffdingTree{
 			reset_counters();
 			double const infinity = std::numeric_limits<float>::infinity();
 			for(int i = 0; i < feature_count; ++i){
-				l_box[i] = -infinity;
-				u_box[i] =  infinity;
+				l_box[i] =  infinity;
+				u_box[i] = -infinity;
 			}
 			int* count;
 			double* limits;
-- 
2.43.0


From 639d67d44606d4d39f763f3793a5e4163cd7deaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:10 +0000
Subject: [PATCH 20/24] fix: initialise the success flag of
 MondrianForest::train

---
 src/mondrian.hpp         | 2 +-
 src/mondrian_unbound.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 0801153..b4ac7c3 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -447,7 +447,7 @@ class MondrianForest{
 	 * @param label The label of the data point.
 	 */
 	bool train(feature_type const* features, int const label){
-		bool fully_trained;
+		bool fully_trained = true;
 		for(int i = 0; i < tree_count; ++i){
 			bool has_trained = train_tree(features, label, i);
 			if(!has_trained)
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index c00bc5b..c50507d 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -458,7 +458,7 @@ class MondrianForestUnbound{
 	 * @param label The label of the data point.
 	 */
 	bool train(feature_type const* features, int const label){
-		bool fully_trained;
+		bool fully_trained = true;
 		for(int i = 0; i < tree_count; ++i){
 			bool has_trained = train_tree(features, label, i);
 			if(!has_trained)
-- 
2.43.0


From a1eea819e05187a6068bba58654a709d29cf1e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:10 +0000
Subject: [PATCH 21/24] fix: choose a valid split dimension in the Mondrian
 forests when rounding leaves none

---
 src/mondrian.hpp         | 5 ++++-
 src/mondrian_unbound.hpp | 8 +++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index b4ac7c3..7797daa 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -145,7 +145,10 @@ class MondrianForest{
 			//sample features with probability proportional to e_lower[i] + e_upper[i]
 			int dimension = Utils::pick_from_distribution<func>(probabilities, feature_count);
 			if(dimension >= feature_count || dimension < 0){
-				dimension = static_cast<int>(func::rand_uniform() * static_cast<double>(feature_count));
+				//NOTE: only possible because of rounding errors. Take the last dimension along which the data point is out of the box
+				dimension = feature_count - 1;
+				while(dimension > 0 && e_lower[dimension] == 0 && e_upper[dimension] == 0)
+					dimension -= 1;
 			}
 
 			//Select the bound to choose the split from
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index c50507d..b65b043 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -247,7 +247,13 @@ class MondrianForestUnbound{
 		if(E >= 0 && parent_tau + E < node->tau){//Introduce a new parent and a new sibling
 			Utils::turn_array_into_probability(probabilities, feature_count, sum);
 			//sample features with probability proportional to e_lower[i] + e_upper[i]
-			int const dimension = Utils::pick_from_distribution<func>(probabilities, feature_count);
+			int dimension = Utils::pick_from_distribution<func>(probabilities, feature_count);
+			if(dimension >= feature_count || dimension < 0){
+				//NOTE: only possible because of rounding errors. Take the last dimension along which the data point is out of the box
+				dimension = feature_count - 1;
+				while(dimension > 0 && e_lower[dimension] == 0 && e_upper[dimension] == 0)
+					dimension -= 1;
+			}
 
 			//Select the bound to choose the split from
 			double lower_value, upper_value;
-- 
2.43.0


From 5155a42430a79c7f7a14c684573f69f9a475cb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:10 +0000
Subject: [PATCH 22/24] fix: keep a Mondrian split below the upper bound when
 rounding reaches it

---
 src/mondrian.hpp         | 4 +++-
 src/mondrian_unbound.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 7797daa..ec3b902 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -163,7 +163,9 @@ class MondrianForest{
 			}
 
 			//sample the split between [lower_value, upper_value]
-			double const split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+			double split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+			if(split_value >= upper_value) //NOTE: only possible because of rounding errors
+				split_value = lower_value;
 			int new_parent, new_sibling;
 			//insert new node above the current one
 			new_parent = available_node();
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index b65b043..f52a3e0 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -267,7 +267,9 @@ class MondrianForestUnbound{
 			}
 
 			//sample the split between [lower_value, upper_value]
-			double const split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+			double split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+			if(split_value >= upper_value) //NOTE: only possible because of rounding errors
+				split_value = lower_value;
 			InternalNode* new_parent = new InternalNode();
 			LeafNode* new_sibling = new LeafNode();
 			count_internal_nodes += 1;
-- 
2.43.0


From 50b321c67309fce71709275150058362148732f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:10 +0000
Subject: [PATCH 23/24] fix: write the Mondrian scores to the caller's array

---
 src/mondrian.hpp         | 5 +++++
 src/mondrian_unbound.hpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index ec3b902..dd33aa1 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -484,6 +484,11 @@ class MondrianForest{
 		for(int k = 0; k < label_count; ++k)
 			sum_posterior_mean[k] /= static_cast<double>(tree_count);
 
+		//Give the scores to the caller
+		if(scores != nullptr)
+			for(int k = 0; k < label_count; ++k)
+				scores[k] = sum_posterior_mean[k];
+
 		//Finally, we look for the best label
 		int best = 0;
 		for(int i = 1; i < label_count; ++i){
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index f52a3e0..bbc458e 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -496,6 +496,11 @@ class MondrianForestUnbound{
 		for(int k = 0; k < label_count; ++k)
 			sum_posterior_mean[k] /= static_cast<double>(tree_count);
 
+		//Give the scores to the caller
+		if(scores != nullptr)
+			for(int k = 0; k < label_count; ++k)
+				scores[k] = sum_posterior_mean[k];
+
 		//Finally, we look for the best label
 		int best = 0;
 		for(int i = 1; i < label_count; ++i){
-- 
2.43.0


From 20ca7a0dab6d12a23016e42e348d327da608c01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:10 +0000
Subject: [PATCH 24/24] fix: report a failure when the node pool has no node
 for a Mondrian root

---
 src/mondrian.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index dd33aa1..eefdfa4 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -286,6 +286,8 @@ class MondrianForest{
 		if (root_id == EMPTY_NODE){ //The root of the tree does not exist yet
 			//Pick a new node
 			root_id = available_node();
+			if(root_id == EMPTY_NODE) //There is no node left for this tree
+				return false;
 
 			//Initialize this node as the root for this tree
 			roots[tree_id] = root_id;
-- 
2.43.0

