From e374daf8662f6b8d0546306ede5cd1a1ca1572ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 01/63] fix: fill the cuckoo filter with empty_value instead of
 zero

A filter whose empty_value is not 0 was created (and cleared) full of
entries equal to 0: every slot looked occupied, so no element could be
added.
---
 src/cuckoo_filter.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cuckoo_filter.hpp b/src/cuckoo_filter.hpp
index fc6f279..aac608e 100644
--- a/src/cuckoo_filter.hpp
+++ b/src/cuckoo_filter.hpp
@@ -148,6 +148,7 @@ class CuckooFilter{
 	 * Basic constructor.
 	 */
 	CuckooFilter(){
+		clear();
 	}
 	/**
 	 * Add a new element to the filter.
@@ -240,7 +241,8 @@ class CuckooFilter{
 	 * Empty the filter.
 	 */
 	void clear(void){
-		for(unsigned char& byte : filter)
-			byte = 0;
+		for(int i = 0; i < bucket_count; ++i)
+			for(int j = 0; j < bucket_size; ++j)
+				set_entry(i, j, empty_value);
 	}
 };
-- 
2.43.0


From 85719487632c360303925432f865d613caffd31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 02/63] fix: keep the reservoir sampling index inside the
 sample

When the random function returns exactly 1, the index was equal to
sample_size and add() wrote after the end of the sample.
---
 src/reservoir_sampling.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reservoir_sampling.hpp b/src/reservoir_sampling.hpp
index f7cc7b1..92d3dc0 100644
--- a/src/reservoir_sampling.hpp
+++ b/src/reservoir_sampling.hpp
@@ -65,8 +65,12 @@ class ReservoirSampling : public Reservoir<element_type, sample_size>{
 			//We use counter+1 because the current item is not counted in counter yet
 			double const threshold = static_cast<double>(sample_size) / static_cast<double>(counter+1);
 			double const rnd = func::random();
-			if(rnd < threshold)
+			if(rnd < threshold){
 				idx = func::floor(func::random() * static_cast<double>(sample_size));
+				//The random function may return exactly 1
+				if(idx >= static_cast<int>(sample_size))
+					idx = sample_size - 1;
+			}
 		}
 		counter += 1;
 		return idx;
-- 
2.43.0


From a52668fc488d1b0b5fc9244c46e06c8543341a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 03/63] fix: keep the exponential reservoir index inside the
 sample

When the random function returns exactly 1, a full reservoir kept growing
its counter, and the index could be equal to the number of elements: add()
wrote after the end of the sample.
---
 src/reservoir_sampling.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reservoir_sampling.hpp b/src/reservoir_sampling.hpp
index 92d3dc0..2933247 100644
--- a/src/reservoir_sampling.hpp
+++ b/src/reservoir_sampling.hpp
@@ -117,10 +117,13 @@ class ExponentialReservoirSampling : public Reservoir<element_type, sample_size>
 		double const filling_ratio = static_cast<double>(counter)/static_cast<double>(sample_size);
 		double const remove_element = func::random();
 		int index;
-		if(remove_element < filling_ratio){
+		//A full reservoir always replaces, even if the random function returns exactly 1
+		if(counter >= sample_size || remove_element < filling_ratio){
 			double const rdn = func::random();
 			//NOTE: index range from [0, counter[.
 			index = func::floor(rdn * static_cast<double>(counter));
+			if(index >= static_cast<int>(counter))
+				index = counter - 1;
 		}
 		else{
 			index = counter;
-- 
2.43.0


From 167ff719d9319cbadd5b259204859f69af53190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 04/63] fix: shift the chain of a reservoir slot by moving
 along its nodes

shift_chain used references as if they could be rebound: it overwrote the
head and the first live node again and again, so a slot whose head became
obsolete exposed the last node of its chain (or a disabled cell) and lost
the others.
---
 src/chained_reservoir.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 3a0224b..0312984 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -84,22 +84,22 @@ class ChainedReservoirSampling{
 	 * @param current the node that should replace head.
 	 */
 	void shift_chain(node& head, node& current){//TODO improve this to avoid overwriting elements
-		node& receiver = head;
-		node& mover = current;
+		node* receiver = &head;
+		node* mover = &current;
 		while(1){//TODO add security
-			receiver.element = mover.element;
-			receiver.timestamp = mover.timestamp;
-			if(mover.next != NULL){
-				mover = *mover.next;
-				receiver = *receiver.next;
+			receiver->element = mover->element;
+			receiver->timestamp = mover->timestamp;
+			if(mover->next != NULL){
+				mover = mover->next;
+				receiver = receiver->next;
 			}
 			else
 				break;
 		}
 		//Once everything is shifted, disable all following cells
-		while(receiver.next != NULL){
-			receiver = *receiver.next;
-			receiver.timestamp = 0;
+		while(receiver->next != NULL){
+			receiver = receiver->next;
+			receiver->timestamp = 0;
 		}
 	}
 	public:
-- 
2.43.0


From 5722099034dc3f114336cca2570bc6b8f450dad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 05/63] fix: obsolete() discards the elements of the given
 timestamp too

It is documented to declare the timestamp and all anterior ones obsolete,
but an element with exactly that timestamp was kept.
---
 src/chained_reservoir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 0312984..d6e539f 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -170,7 +170,7 @@ class ChainedReservoirSampling{
 			node* current = &head;
 			bool do_shift = true;
 
-			while(current->timestamp < timestamp){
+			while(current->timestamp <= timestamp){
 				if(current->next == NULL){
 					do_shift = false;
 					break;
-- 
2.43.0


From 971b3bb1d9057337150ba9b8b2c73a88142b1db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 06/63] fix: count the current element in the chained
 reservoir's probability

The k-th element has to enter the sample with probability n/k; it used
n/(k-1), so element n+1 was always sampled.
---
 src/chained_reservoir.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index d6e539f..6e3e33a 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -127,7 +127,8 @@ class ChainedReservoirSampling{
 			next[counter] = counter + 1 + round(funct::random() * (sample_size-1));
 		}
 		else{
-			double const threshold = (double)sample_size / (double)counter;
+			//We use counter+1 because the current item is not counted in counter yet
+			double const threshold = (double)sample_size / (double)(counter + 1.0);
 			double const rnd = funct::random();
 			if(rnd < threshold){
 				int const index = round(funct::random() * (sample_size-1));
-- 
2.43.0


From ff8708755c2602a0041f385d2b3e2442a551ce6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:07 +0000
Subject: [PATCH 07/63] fix: draw the slots of the chained reservoir uniformly

Rounding random()*(n-1) gave the first and the last slot half the
probability of the others.
---
 src/chained_reservoir.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 6e3e33a..a355be5 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -29,11 +29,12 @@ class ChainedReservoirSampling{
 	unsigned int counter = 0;
 
 	/**
-	 * Round d to the closest integer
-	 * @param d the double to round
+	 * Draw an integer uniformly within [0, sample_size[
 	 */
-	double round(double const d) {
-		  return (double)((int)(d + 0.5));
+	unsigned int random_index(void) {
+		unsigned int const index = funct::random() * sample_size;
+		//The random function may return exactly 1
+		return index < sample_size ? index : sample_size - 1;
 	}
 	/**
 	 * Function to reset a chain when it is replaced. This is a recursive function.
@@ -124,25 +125,25 @@ class ChainedReservoirSampling{
 			sample[counter].element = e;
 			sample[counter].timestamp = timestamp;
 			sample[counter].next = NULL;
-			next[counter] = counter + 1 + round(funct::random() * (sample_size-1));
+			next[counter] = counter + 1 + random_index();
 		}
 		else{
 			//We use counter+1 because the current item is not counted in counter yet
 			double const threshold = (double)sample_size / (double)(counter + 1.0);
 			double const rnd = funct::random();
 			if(rnd < threshold){
-				int const index = round(funct::random() * (sample_size-1));
+				int const index = random_index();
 				sample[index].element = e;
 				sample[index].timestamp = timestamp;
 				clear_chain(sample[index].next); //NOTE we do not free the memory here, but it might be interesting to think about it
-				next[index] = counter + 1 + round(funct::random() * (sample_size-1));
+				next[index] = counter + 1 + random_index();
 			}
 		}
 		//check `next`
 		for(int i = 0; i < sample_size; ++i){
 			if(counter == next[i]){
 				push_on_chain(sample[i], e, timestamp);
-				next[i] = counter + 1 + round(funct::random() * (sample_size-1));
+				next[i] = counter + 1 + random_index();
 			}
 		}
 		counter += 1;
-- 
2.43.0


From 0f38d5376162ef36067ce3d5bb2958ccc442dce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:28 +0000
Subject: [PATCH 08/63] fix: let a chain of the reservoir grow past 5000 nodes

A stream that never calls obsolete() aborted (or, without assertions,
silently lost the replacement) once a chain had 5000 nodes.
---
 src/chained_reservoir.hpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index a355be5..01fc904 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -37,15 +37,12 @@ class ChainedReservoirSampling{
 		return index < sample_size ? index : sample_size - 1;
 	}
 	/**
-	 * Function to reset a chain when it is replaced. This is a recursive function.
+	 * Function to reset a chain when it is replaced.
 	 * @param start The node to start from.
 	 */
 	void clear_chain(node* start){
-		if(start == NULL)
-			return;
-		start->timestamp = 0;
-		//TODO improve this recursive code lazy boy -_-"
-		clear_chain(start->next);
+		for(; start != NULL; start = start->next)
+			start->timestamp = 0;
 	}
 	/** Add a new element in the first available space of a chain.
 	 * If there is no space (and no loop) it run the malloc function given in `funct` to allocate a new space.
@@ -55,9 +52,8 @@ class ChainedReservoirSampling{
 	 */
 	void push_on_chain(node& head, element_type e, unsigned int const timestamp){
 		node* current = &head;
-		int i = 0;
 		//The only thing that could make this loop forever is a corruption the linked list of node that loop over the same data without empty space.
-		while(i < 5000){ //`i` is just a security
+		while(true){
 			if(current->timestamp == 0){ // This cell is available
 				current->element = e;
 				current->timestamp = timestamp;
@@ -74,10 +70,7 @@ class ChainedReservoirSampling{
 			}
 
 			current = current->next;
-			i += 1;
 		}
-		assert(false);
-		//TODO maybe clear the chain if it is corrupted
 	}
 	/*
 	 * Shift the node from current to head.
-- 
2.43.0


From 4f413f2fa59676743f26f6ad33324131c592767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 09/63] fix: keep a sampled element whose timestamp is 0

The head of a chain always holds the sampled element, but a head with the
timestamp 0 was taken for a free cell and overwritten by its successor.
---
 src/chained_reservoir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 01fc904..295d155 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -54,7 +54,7 @@ class ChainedReservoirSampling{
 		node* current = &head;
 		//The only thing that could make this loop forever is a corruption the linked list of node that loop over the same data without empty space.
 		while(true){
-			if(current->timestamp == 0){ // This cell is available
+			if(current != &head && current->timestamp == 0){ // This cell is available
 				current->element = e;
 				current->timestamp = timestamp;
 				return;
-- 
2.43.0


From 2939c4f6e68ad8fb076f53fb75152564c2f9074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 10/63] fix: keep the limits of LTC as floating point numbers

The limits were stored in element_type: with integers they were truncated
at each point, so the compressed line left the epsilon margin, and with
other types (double, float, short) add() did not compile.
---
 src/ltc.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index 8022fe4..40a3458 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -16,7 +16,16 @@ class LTC{
 		timestamp_type timestamp;
 		element_type value;
 	};
-	data_point last_transmit_point, UL, LL, new_ul, new_ll, to_transmit;
+	/*
+	 * Internal structure to describe a limit. The limits are not points of the
+	 * data, thus they are not restricted to the values of element_type.
+	 */
+	struct limit_point{
+		timestamp_type timestamp;
+		double value;
+	};
+	data_point last_transmit_point, to_transmit;
+	limit_point UL, LL, new_ul, new_ll;
 
 	int counter = 0; //Counter make sure the algorithm does not fail for the first 3 values
 
@@ -52,9 +61,9 @@ class LTC{
 	 */
 	void update(timestamp_type const timestamp, element_type const value){
 		new_ul.timestamp = timestamp;
-		new_ul.value = min(value + epsilon, max_value);
+		new_ul.value = min<double>((double)value + epsilon, max_value);
 		new_ll.timestamp = timestamp;
-		new_ll.value = max(value - epsilon, min_value);
+		new_ll.value = max<double>((double)value - epsilon, min_value);
 	}
 	/*
 	 * Compute the need to transmit the compress data point.
-- 
2.43.0


From b7a7b3b10871b1d8efb5e9b340d2bb7daac70562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 11/63] fix: end an LTC segment at the last point it covers

The end of a segment was dated one unit before the point that does not
fit, which is not the time of the limits it is computed from unless the
data come at every unit of time.
---
 src/ltc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index 40a3458..0239267 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -129,7 +129,7 @@ class LTC{
 			to_transmit = last_transmit_point;
 			//Update the last_transmit_point
 			element_type tmp_param = (UL.value + LL.value) / 2;
-			last_transmit_point.timestamp = timestamp - 1;
+			last_transmit_point.timestamp = UL.timestamp;
 			last_transmit_point.value = tmp_param;
 			counter = 1;
 			add(timestamp, value);
-- 
2.43.0


From a57d6fda9df67348eff045dfd967cbfeaadaf0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:54 +0000
Subject: [PATCH 12/63] fix: scale the LTC limits back by the time unit
 difference

The slopes are divided by time_unit_difference, so extending a limit has to
multiply by it; it divided again (between integers).
---
 src/ltc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index 0239267..bd76ae5 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -78,11 +78,11 @@ class LTC{
 			return true;
 
 		if(old_up_deriva < new_up_deriva) {
-			new_ul.value = (new_ul.timestamp - UL.timestamp) / time_unit_difference * old_up_deriva + UL.value;
+			new_ul.value = (double)(new_ul.timestamp - UL.timestamp) * time_unit_difference * old_up_deriva + UL.value;
 		}
 
 		if(old_low_deriva > new_low_deriva) {
-			new_ll.value = (new_ll.timestamp - LL.timestamp) / time_unit_difference * old_low_deriva + LL.value;
+			new_ll.value = (double)(new_ll.timestamp - LL.timestamp) * time_unit_difference * old_low_deriva + LL.value;
 		}
 		return false;
 	}
-- 
2.43.0


From 3ff943bba0252e49a383ddbe6de3ef30e05f4482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 13/63] fix: let MC-NN find clusters at any distance

Clusters whose squared distance was over 1000000 were ignored: predict()
returned the empty class, and train() created a new cluster for a label
that already had one.
---
 src/mc_nn.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index beec111..ebfc125 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -221,7 +221,7 @@ class MCNN{
 		//Otherwise, we have to found it.
 		feature_type centroid[feature_count];
 		int nearest_cluster = -1;
-		double shortest_distance = 1000000;
+		double shortest_distance = -1;
 		for(int cluster_idx = 0; cluster_idx < max_cluster; ++cluster_idx){
 			//Only check the distance with the cluster with the same label.
 			if(!active[cluster_idx] || clusters[cluster_idx].label != label)
@@ -229,7 +229,7 @@ class MCNN{
 			//NOTE: finding both the nearest and the nearest with class could be done in one pass, but I choose to use 2 different functions to make it clearer.
 			clusters[cluster_idx].centroid(centroid);
 			double const distance = euclidean_distance(features, centroid);
-			if(distance < shortest_distance){
+			if(nearest_cluster < 0 || distance < shortest_distance){
 				nearest_cluster = cluster_idx;
 				shortest_distance = distance;
 			}
@@ -249,7 +249,7 @@ class MCNN{
 	void find_nearest_clusters(feature_type const* features, int& nearest, double* shortest = nullptr) const{
 		feature_type centroid[feature_count];
 		int nearest_cluster = -1;
-		double shortest_distance = 1000000;
+		double shortest_distance = -1;
 		//Loop over the clusters
 		for(int cluster_idx = 0; cluster_idx < max_cluster; ++cluster_idx){
 			//If the cluster is empty, skip it
@@ -259,7 +259,7 @@ class MCNN{
 			clusters[cluster_idx].centroid(centroid);
 			//Compute the squared euclidean distance
 			double const distance = euclidean_distance(features, centroid);
-			if(distance < shortest_distance){
+			if(nearest_cluster < 0 || distance < shortest_distance){
 				nearest_cluster = cluster_idx;
 				shortest_distance = distance;
 			}
-- 
2.43.0


From 4a116dd12e27c210d67a8a326866c369c7ad00ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 14/63] fix: split an MC-NN cluster around its centroid with
 integer features

The sum was divided by the unsigned data_count, so with an int feature type
a negative sum was converted to a huge positive number.
---
 src/mc_nn.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index ebfc125..978968d 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -175,7 +175,7 @@ class MCNN{
 		//Create two separate feature data points based on the centroid of the original cluster
 		feature_type cluster_minus[feature_count], cluster_plus[feature_count];
 		for(int i = 0; i < feature_count; ++i){
-			cluster_minus[i] = cluster_plus[i] = clusters[cluster_idx].features_sum[i] / clusters[cluster_idx].data_count;
+			cluster_minus[i] = cluster_plus[i] = (double)clusters[cluster_idx].features_sum[i] / (double)clusters[cluster_idx].data_count;
 		}
 
 		//Update the spliting attribut
-- 
2.43.0


From f373f562e912663d9e8efed1bd7d3fa0fef81092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:55 +0000
Subject: [PATCH 15/63] fix: do not take the square root of a negative variance
 in MC-NN

When every feature of the cluster is constant, rounding errors can give a
negative variance: both halves of the split had a NaN centroid.
---
 src/mc_nn.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index 978968d..db3162d 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -171,7 +171,8 @@ class MCNN{
 				split_index = i;
 			}
 		}
-		highest_variance = sqrt_local(highest_variance);
+		//Rounding errors can make the variance of equal values slightly negative
+		highest_variance = highest_variance > 0 ? sqrt_local(highest_variance) : 0;
 		//Create two separate feature data points based on the centroid of the original cluster
 		feature_type cluster_minus[feature_count], cluster_plus[feature_count];
 		for(int i = 0; i < feature_count; ++i){
-- 
2.43.0


From 0c7ebddebb192b2513d542fb5336dbc0e23e2898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:59 +0000
Subject: [PATCH 16/63] fix: keep the number of active MC-NN clusters right

count_clusters() was not decremented when the cleaning removes a cluster,
and was incremented when a split replaces one that is already active.
---
 src/mc_nn.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index db3162d..8ae6dc7 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -188,8 +188,9 @@ class MCNN{
 
 		clusters[new_idx].initialize(cluster_minus, clusters[cluster_idx].label, old_time, error_thr);
 		clusters[cluster_idx].initialize(cluster_plus, clusters[cluster_idx].label, old_time, error_thr);
+		if(!active[new_idx])
+			count_active_cluster += 1;
 		active[new_idx] = true;
-		count_active_cluster += 1;
 	}
 	/**
 	 * Compute the squared distance between two data point.
@@ -282,8 +283,10 @@ class MCNN{
 	 */
 	void clean_low_performance_clusters(void){
 		for(int i = 0; i < max_cluster; ++i)
-			if(active[i] == true && clusters[i].data_count > 1 && clusters[i].performance(timestamp) < performance_thr)
+			if(active[i] == true && clusters[i].data_count > 1 && clusters[i].performance(timestamp) < performance_thr){
 				active[i] = false;
+				count_active_cluster -= 1;
+			}
 	}
 	public:
 	/**
-- 
2.43.0


From 2492ebe7806a4008f728f128b2da0af66da2f4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 17/63] fix: never replace the MC-NN cluster being split by its
 own half

When the cluster to split had the lowest participation, it was picked as
the one to remove, and one of the two halves was lost.
---
 src/mc_nn.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index 8ae6dc7..05f9c70 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -126,12 +126,13 @@ class MCNN{
 
 	/**
 	 * Returns the micro-cluster with the lowest participation
+	 * @param excluded the index of a micro-cluster to leave out (default: none).
 	 */
-	int get_lowest_participation(void){
+	int get_lowest_participation(int const excluded = -1){
 		int lowest = -1;
 		double lowest_value = 101;
 		for(int i = 0; i < max_cluster; ++i){
-			if(active[i] == true){
+			if(active[i] == true && i != excluded){
 				double const perf = clusters[i].performance(timestamp);
 				if(lowest == -1 || perf < lowest_value){
 					lowest_value = perf;
@@ -156,9 +157,11 @@ class MCNN{
 		if(new_idx < 0){
 			//Remove the least performant cluster.
 			if(cleaning_method == 0 || cleaning_method == 2)
-				new_idx = get_lowest_participation();
+				new_idx = get_lowest_participation(cluster_idx);
 			else //There is no more space and the cleaning method does not allow us to remove a cluster here
 				return;
+			if(new_idx < 0) //The cluster to split is the only one
+				return;
 		}
 
 		//Choose the attribute with the greatest variance, then do the split on it
-- 
2.43.0


From f247ec5ba96ba5db73e3b995ecf9d1f48f038169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:18 +0000
Subject: [PATCH 18/63] fix: split a Hoeffding tree on the feature of the best
 limit

The index of the best limit was compared with the number of bins instead
of the number of limits, so the first limits of a feature were used to
split on the previous feature.
---
 src/hoeffding_tree.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index e6ac27d..d404fe0 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -232,11 +232,12 @@ class HoeffdingTree{
 			if(square_diff > epsilon && info_gain[best_split[0]] > 0){
 				split_value = limits[best_split[0]];
 				//Try to retrieve the feature concerned :>
-				int tmp_c = tree->features_size[0];
+				//NOTE: there is one limit less than there is bins
+				int tmp_c = tree->features_size[0] - 1;
 				for(int f = 0; f < feature_count-1; ++f){
 					if(best_split[0] < tmp_c)
 						return f;
-					tmp_c += tree->features_size[f+1];
+					tmp_c += tree->features_size[f+1] - 1;
 				}
 				//If the feature is not found, it must be the last one
 				return feature_count-1;
-- 
2.43.0


From 150236293741838d33ddb678610b53dc14579c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 19/63] fix: reserve the counters of each Hoeffding tree leaf

buffer_preset was never moved, so all the leaves shared one block of
counters: training a leaf changed the others.
---
 src/hoeffding_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index d404fe0..3951362 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -50,6 +50,7 @@ class HoeffdingTree{
 			int const total_size_counters = compute_total_size_counters(tree->sum_feature_size);
 			int const tmp_preset = tree->buffer_preset - total_size_counters;
 			this->split_feature = - ((max_size - tmp_preset) / total_size_counters); //we need negative number because counters are store on the other side of buffer
+			tree->buffer_preset = tmp_preset;
 			reset_counters();
 			double const infinity = std::numeric_limits<float>::infinity();
 			for(int i = 0; i < feature_count; ++i){
-- 
2.43.0


From d0abd3d28c82f35b37ab91a98f06ef95d8d834df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 20/63] fix: start the box of a Hoeffding tree leaf empty

The box started as ]-inf, +inf[, which no data point can extend: the
limits of the leaves created by a split were NaN or infinite and these
leaves could not split again.
---
 src/hoeffding_tree.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 3951362..123230c 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -54,8 +54,9 @@ class HoeffdingTree{
 			reset_counters();
 			double const infinity = std::numeric_limits<float>::infinity();
 			for(int i = 0; i < feature_count; ++i){
-				l_box[i] = -infinity;
-				u_box[i] =  infinity;
+				//Nothing has been encountered yet
+				l_box[i] =  infinity;
+				u_box[i] = -infinity;
 			}
 			int* count;
 			double* limits;
-- 
2.43.0


From a053eeb92b39b53911cc7c3ef4ef5d13caeccc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 21/63] fix: leave a Hoeffding tree leaf unchanged when it
 cannot be split

When the buffer was full, a node was constructed on a null pointer, the
counters of the leaf were reset and the training went on with the child
number -1.
---
 src/hoeffding_tree.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 123230c..e3a6553 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -126,11 +126,13 @@ class HoeffdingTree{
 		 * @param value The value to use for the split.
 		 */
 		int split(int const feature, double const value){
-			Node* child_right = new (*tree) Node(*tree);
+			//Both children are needed, but only one new block of counters
+			int const needed_size = 2 * sizeof(Node) + compute_total_size_counters();
+			if(needed_size > tree->buffer_preset - tree->buffer_offset) // No more node available
+				return -1;
 			//NOTE: child_left has been created re-using counters and bounds from current node
 			Node* child_left = new (*tree) Node(*this); 
-			if(child_left == nullptr || child_right == nullptr) // No more node available
-				return -1;
+			Node* child_right = new (*tree) Node(*tree);
 			//This operation return the index of child_left since the cell size of the pointer is sizeof Node
 			children[0] = child_left - reinterpret_cast<Node*>(tree->buffer); 
 			children[1] = child_right - reinterpret_cast<Node*>(tree->buffer);
@@ -505,12 +507,13 @@ class HoeffdingTree{
 		int const result = leaf->train(features, label, split_value);
 		if(result >= 0){
 			int const split_result = leaf->split(result, split_value);
+			if(split_result != 0) //The leaf has not changed and remains a leaf
+				return false;
 			//NOTE: it is very unlikely the node will split, so we don't check
 			if(features[result] <= split_value)
 				leaf->get_left_child()->train(features, label, split_value);
 			else
 				leaf->get_right_child()->train(features, label, split_value);
-			return (split_result == 0);
 		}
 		return true;
 	}
-- 
2.43.0


From de75a1dd9bcc2728fa37f09cca875aef4ef23f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 22/63] fix: train a Hoeffding tree that has less than two
 limits

The second best split was read after the end of the array when there is
only one limit to choose from.
---
 src/hoeffding_tree.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index e3a6553..0ef6843 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -201,7 +201,10 @@ class HoeffdingTree{
 				tmp_feature_sum += tree->features_size[f];
 			}
 			//Now we need to update *info_sum*
-			double info_gain[tree->sum_feature_size-feature_count];			
+			if(tree->sum_feature_size-feature_count < 1) //There is no limit to split on
+				return -1;
+			double info_gain[tree->sum_feature_size-feature_count+1];
+			info_gain[1] = 0; //With only one limit, it is compared with the gain of not splitting
 			//NOTE: no need to initialize output because it will be set.
 			compute_information_gain(static_cast<double>(*count), counters, info_gain);
 			double const d_count = static_cast<double>(*count);
-- 
2.43.0


From 28002da06ab8121ca58f5b624f178cd75e424151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:35 +0000
Subject: [PATCH 23/63] fix: give probabilities for a Hoeffding tree leaf
 without data points

The scores were 0/0, that is NaN.
---
 src/hoeffding_tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 0ef6843..853d2e9 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -113,7 +113,8 @@ class HoeffdingTree{
 			//Compute the probabilities.
 			//NOTE: *l* starts at 0 because if it starts at 1, the first probability won't be computed and stored in the array
 			for(int l = 0; l < label_count; ++l){
-				probabilities[l] = counts[l] / sum;
+				//NOTE: without any data point, every label is as likely
+				probabilities[l] = sum > 0 ? counts[l] / sum : 1.0 / label_count;
 				if(probabilities[l] > probabilities[best])
 					best = l;
 			}
-- 
2.43.0


From 8c5f078bb5de8569394fda2fa12a10ef3d027e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 24/63] fix: make the copy of a Hoeffding tree independent

The nodes keep a pointer to their tree, which still was the original in a
copy: training or reading the copy used the counters of the original.
---
 src/hoeffding_tree.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 853d2e9..0a643ea 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -499,6 +499,28 @@ class HoeffdingTree{
 		Node* root = new (*this) Node(*this);
 		this->delta = delta;
 	}
+	/**
+	 * Copy constructor of the Hoeffding Tree.
+	 */
+	HoeffdingTree(HoeffdingTree const& other){
+		*this = other;
+	}
+	/**
+	 * Overload of the = operator. The nodes are copied with the buffer, then they have to belong to this tree.
+	 */
+	HoeffdingTree& operator=(HoeffdingTree const& other){
+		for(int i = 0; i < max_size; ++i)
+			buffer[i] = other.buffer[i];
+		buffer_offset = other.buffer_offset;
+		buffer_preset = other.buffer_preset;
+		delta = other.delta;
+		for(int i = 0; i < feature_count; ++i)
+			features_size[i] = other.features_size[i];
+		sum_feature_size = other.sum_feature_size;
+		for(int i = 0; i < buffer_offset / static_cast<int>(sizeof(Node)); ++i)
+			(reinterpret_cast<Node*>(buffer) + i)->tree = this;
+		return *this;
+	}
 	/**
 	 * Train all trees of the forest with a new data point.
 	 * Return false if a tree has failed to be trained.
-- 
2.43.0


From 9f4f18a43f758520bbc97123bcac31b0d0b45cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 25/63] fix: count a value equal to a limit on the side it is
 routed to

A split sends a value equal to the split value to the left child, but the
information gain of this split was computed with that value on the right.
---
 src/hoeffding_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 0a643ea..497a504 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -190,7 +190,7 @@ class HoeffdingTree{
 				//Look for the bin
 				for(int lim_index = 0; lim_index < (tree->features_size[f]-1); ++lim_index){ //There is one limit less than there  is bins
 					//NOTE the limits are supposed to be sorted
-					if(features[f] < limits[tmp_feature_sum+lim_index-f]){
+					if(features[f] <= limits[tmp_feature_sum+lim_index-f]){
 						label_counters[tmp_feature_sum + lim_index] += 1;
 						limit_found = true;
 						break;
-- 
2.43.0


From 1f5257650fd4f6889acb16fa0a36e91132b26e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 26/63] fix: align the counters of the Hoeffding tree in its
 buffer

The limits and the information gains are double values, but they were
stored after an int and from an end of the buffer of any alignment.
---
 src/hoeffding_tree.hpp | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 497a504..2129240 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -14,9 +14,11 @@ template<class feature_type, int feature_count, int label_count, int max_size, c
 class HoeffdingTree{
 	static int const EMPTY_NODE = -1;
 	//The buffer that will store all the node and the counters
-	char buffer[max_size] = {0};
+	alignas(double) char buffer[max_size] = {0};
 	//Offsets from the beginning and the end of the buffer
-	int buffer_offset = 0, buffer_preset = max_size;
+	//NOTE: the end of the buffer is aligned because the counters are stored from there
+	static int const usable_size = max_size - max_size % alignof(double);
+	int buffer_offset = 0, buffer_preset = usable_size;
 	double delta; //Probability of error in the Hoeffding bound
 	//The number of values for each feature
 	int features_size[feature_count];
@@ -49,7 +51,7 @@ class HoeffdingTree{
 			// NOTE: in the new operator, we made sure that there was space for the node and its counters.
 			int const total_size_counters = compute_total_size_counters(tree->sum_feature_size);
 			int const tmp_preset = tree->buffer_preset - total_size_counters;
-			this->split_feature = - ((max_size - tmp_preset) / total_size_counters); //we need negative number because counters are store on the other side of buffer
+			this->split_feature = - ((usable_size - tmp_preset) / total_size_counters); //we need negative number because counters are store on the other side of buffer
 			tree->buffer_preset = tmp_preset;
 			reset_counters();
 			double const infinity = std::numeric_limits<float>::infinity();
@@ -413,11 +415,11 @@ class HoeffdingTree{
 			// 2 time the previous					-> The sum of information gain for each cut
 			// sizeof(int) 							-> The number of data point seen so far (easy way :))
 			int const fixed_size = sizeof(int) + 2 * (tree->sum_feature_size-feature_count) * sizeof(double);
-			int const total_size_counters = fixed_size + size_per_label * label_count;
+			int const total_size_counters = align_size(fixed_size + size_per_label * label_count);
 			//NOTE: split_feature is alway negative when *this* is a leaf.
-			//So at the very least, split_feature == -1, therefore, max_size+split_feature is, at most, equal to max_size-1,
+			//So at the very least, split_feature == -1, therefore, usable_size+split_feature is, at most, equal to usable_size-1,
 			//which is within the size of the array
-			int const base_index = max_size + split_feature * total_size_counters;
+			int const base_index = usable_size + split_feature * total_size_counters;
 			int const counters_index = base_index + fixed_size + label * size_per_label;
 			
 			return reinterpret_cast<int*>(tree->buffer + counters_index);
@@ -432,12 +434,13 @@ class HoeffdingTree{
 		void get_informations(int*& count, double*& limits, double*& informations) const{
 			int const size_per_label = tree->sum_feature_size * sizeof(int);
 			int const fixed_size = sizeof(int) + 2 * (tree->sum_feature_size-feature_count) * sizeof(double);
-			int const total_size_counters = fixed_size + size_per_label * label_count;
+			int const total_size_counters = align_size(fixed_size + size_per_label * label_count);
 
-			int const base_index = max_size + split_feature * total_size_counters;
-			int const limits_index = base_index + sizeof(int);
+			int const base_index = usable_size + split_feature * total_size_counters;
+			//NOTE: the count is after the double values to keep them aligned
+			int const limits_index = base_index;
 			int const info_sum_index = limits_index + (tree->sum_feature_size-feature_count) * sizeof(double);
-			count = reinterpret_cast<int*>(tree->buffer + base_index);
+			count = reinterpret_cast<int*>(tree->buffer + info_sum_index + (tree->sum_feature_size-feature_count) * sizeof(double));
 			limits = reinterpret_cast<double*>(tree->buffer + limits_index);
 			informations = reinterpret_cast<double*>(tree->buffer + info_sum_index);
 		}
@@ -454,9 +457,17 @@ class HoeffdingTree{
 		static int compute_total_size_counters(int const sum_feature_size){
 			int const size_per_label = sum_feature_size * sizeof(int);
 			int const fixed_size = sizeof(int) + 2 * (sum_feature_size-feature_count) * sizeof(double);
-			int const total_size_counters = fixed_size + size_per_label * label_count;
+			int const total_size_counters = align_size(fixed_size + size_per_label * label_count);
 			return total_size_counters;
 		}
+		/**
+		 * Round a size up so the next counters start on an address aligned for double.
+		 * @param size The size to round.
+		 */
+		static int align_size(int const size){
+			int const alignment = alignof(double);
+			return (size + alignment - 1) / alignment * alignment;
+		}
 		/**
 		 * This function reset all counters and limits to zero.
 		 * NOTE: this function is not const because it modifies counter values.
@@ -466,7 +477,7 @@ class HoeffdingTree{
 		void reset_counters(void){
 
 			int const size_counters = compute_total_size_counters();
-			int const starting_index = max_size + split_feature * size_counters;
+			int const starting_index = usable_size + split_feature * size_counters;
 			for(int i = starting_index; i < starting_index + size_counters; ++i)
 				tree->buffer[i] = 0;
 		}
-- 
2.43.0


From bb054de9254dbcf7f707bee4a8c3ad76f3177837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 27/63] fix: do not read the size of the layer before the input
 layer

backpropagate() read layer_size[-1] when it reached the input layer.
---
 src/perceptron.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/perceptron.hpp b/src/perceptron.hpp
index 1b20ed4..957ddf7 100644
--- a/src/perceptron.hpp
+++ b/src/perceptron.hpp
@@ -165,7 +165,6 @@ class MultiLayerPerceptron{
 
 			for(int layer_idx = layer_count - 2; layer_idx >= 0; --layer_idx){
 				output_base -= layer_size[layer_idx];
-				weight_base -= (layer_size[layer_idx-1]+1) * layer_size[layer_idx];
 				for(int neuron_idx = 0; neuron_idx <= layer_size[layer_idx]; ++neuron_idx){
 					double neuron_error = 0;
 					double current_neuron_output = 1;
@@ -174,7 +173,7 @@ class MultiLayerPerceptron{
 					for(int weight_idx = 0; weight_idx < layer_size[layer_idx+1]; ++weight_idx){
 
 						int neuron_next_layer = output_base + layer_size[layer_idx] + weight_idx;
-						int weight_next_layer = weight_base + (layer_size[layer_idx-1]+1) * layer_size[layer_idx] + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
+						int weight_next_layer = weight_base + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
 						neuron_error += neuron_output[neuron_next_layer] * weights[weight_next_layer];
 					}
 					neuron_error *= func::derivative(current_neuron_output);
@@ -183,13 +182,16 @@ class MultiLayerPerceptron{
 					for(int weight_idx = 0; weight_idx < layer_size[layer_idx+1]; ++weight_idx){
 
 						int neuron_next_layer = output_base + layer_size[layer_idx] + weight_idx;
-						int weight_next_layer = weight_base + (layer_size[layer_idx-1]+1) * layer_size[layer_idx] + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
+						int weight_next_layer = weight_base + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
 						double d_weight = - learning_rate * current_neuron_output * neuron_output[neuron_next_layer];
 						weights[weight_next_layer] += d_weight;
 					}
 					if(neuron_idx < layer_size[layer_idx])
 						neuron_output[output_base + neuron_idx] = neuron_error;
 				}
+				//The weights of the input layer are the first ones
+				if(layer_idx > 0)
+					weight_base -= (layer_size[layer_idx-1]+1) * layer_size[layer_idx];
 			}
 
 			return (sum_error_output/layer_size[layer_count-1]);
-- 
2.43.0


From e29b9fbd0ee3a9f1f1bd8af628b18c53858a7457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:54 +0000
Subject: [PATCH 28/63] fix: only pick an index that has a probability

pick_from_distribution() returned index 0 when the random number is 0 even
if its probability is 0, and an index out of the array when rounding makes
the last cumulated probability lower than the random number. The Mondrian
trees then used an uninitialised split or a feature out of bounds.
---
 src/utils.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utils.hpp b/src/utils.hpp
index f86478a..5db4522 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -14,10 +14,14 @@ class Utils{
 		double const u = func::rand_uniform(); //Sample a random number between [0,1[
 		//NOTE improve with a log search :]
 		for(int i = 0; i < size; ++i){
-			if(u <= probabilities[i])
+			if(u < probabilities[i])
 				return i;
 		}
-		return size;//NOTE: this should never happen unless the last element of *probabilities* is less than 1
+		//The last element of *probabilities* is less than 1 (rounding), pick the last index that has a chance to be picked
+		int last = size - 1;
+		while(last > 0 && !(probabilities[last] > probabilities[last-1]))
+			last -= 1;
+		return last;
 	}
 	/**
 	 * Turn an array of values into a sum of probabilities according to these values.
-- 
2.43.0


From 3102377a70823e7a0aff2889272c9a2593b51075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 29/63] fix: let shuffle keep an element at its place

The swap index excluded the current element, so only cyclic permutations
were drawn: no element could stay where it was.
---
 src/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.hpp b/src/utils.hpp
index 5db4522..478d080 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -87,7 +87,7 @@ class Utils{
 	inline static void shuffle(T* array, int const size){
 		for(int i = size-1; i > 0; --i){
 			T tmp = array[i];
-			int swap_idx = static_cast<int>(func::rand_uniform()*static_cast<double>(i));
+			int swap_idx = static_cast<int>(func::rand_uniform()*static_cast<double>(i+1));
 			array[i] = array[swap_idx];
 			array[swap_idx] = tmp;
 		}
-- 
2.43.0


From 770246ab0716108fa0667a7a7f7d61bee737a761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 30/63] fix: return a defined value from the training of a
 Mondrian forest

fully_trained was never set to true: train() returned an uninitialised
value.
---
 src/mondrian.hpp         | 2 +-
 src/mondrian_unbound.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 0801153..b4ac7c3 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -447,7 +447,7 @@ class MondrianForest{
 	 * @param label The label of the data point.
 	 */
 	bool train(feature_type const* features, int const label){
-		bool fully_trained;
+		bool fully_trained = true;
 		for(int i = 0; i < tree_count; ++i){
 			bool has_trained = train_tree(features, label, i);
 			if(!has_trained)
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index c00bc5b..c50507d 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -458,7 +458,7 @@ class MondrianForestUnbound{
 	 * @param label The label of the data point.
 	 */
 	bool train(feature_type const* features, int const label){
-		bool fully_trained;
+		bool fully_trained = true;
 		for(int i = 0; i < tree_count; ++i){
 			bool has_trained = train_tree(features, label, i);
 			if(!has_trained)
-- 
2.43.0


From 33b7138708e594250066eb0c3bf2a9a6f8a3233e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 31/63] fix: fail to train a Mondrian tree when there is no
 node for its root

The node number -1 was written.
---
 src/mondrian.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index b4ac7c3..49c948f 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -281,6 +281,8 @@ class MondrianForest{
 		if (root_id == EMPTY_NODE){ //The root of the tree does not exist yet
 			//Pick a new node
 			root_id = available_node();
+			if(root_id < 0) //There is no more node
+				return false;
 
 			//Initialize this node as the root for this tree
 			roots[tree_id] = root_id;
-- 
2.43.0


From 8398a7566afd4d411ed4ae6d67876ca5dcf1d076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 32/63] fix: give back the node of a Mondrian split that lacks
 a sibling

When a single node was left, it was taken for the new parent and lost.
---
 src/mondrian.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 49c948f..51c7ca1 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -216,6 +216,9 @@ class MondrianForest{
 					sample_block(new_sibling, features, label);
 				}
 				else{
+					//The new parent is useless without the sibling, give it back
+					nodes[new_parent].split_dimension = EMPTY_NODE;
+					nodes[new_parent].tau = EMPTY_NODE;
 					update_box = true;
 				}
 			}
-- 
2.43.0


From ce426d33e3b6da7018468ce1a29e1b83a2f17c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 33/63] fix: copy all the fields of a Mondrian node

The parent was left uninitialised in the copy of a node, so the copy of a
forest followed garbage.
---
 src/mondrian.hpp        | 1 +
 src/mondrian_coarse.hpp | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 51c7ca1..2727584 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -53,6 +53,7 @@ class MondrianForest{
 			split_value = src.split_value;
 			child_left = src.child_left;
 			child_right = src.child_right;
+			parent = src.parent;
 			tau = src.tau;
 			for(int i = 0; i < label_count; ++i)
 				counters[i] = src.counters[i];
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index d99ef14..dd992a5 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -66,7 +66,10 @@ struct MondrianNode{
 		split_value = src.split_value;
 		child_left = src.child_left;
 		child_right = src.child_right;
+		parent = src.parent;
 		tau = src.tau;
+		forced_extend = src.forced_extend;
+		fading_score = src.fading_score;
 		for(int i = 0; i < label_count; ++i)
 			counters[i] = src.counters[i];
 		for(int i = 0; i < feature_count; ++i){
@@ -82,6 +85,8 @@ struct MondrianNode{
 			child_right = node.child_right;
 			parent = node.parent;
 			tau = node.tau;
+			forced_extend = node.forced_extend;
+			fading_score = node.fading_score;
 			for(int i = 0; i < feature_count; ++i){
 				bound_lower[i] = node.bound_lower[i];
 				bound_upper[i] = node.bound_upper[i];
-- 
2.43.0


From bf431b403aa7e7c64b843b31c090fe272bde110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:12 +0000
Subject: [PATCH 34/63] fix: return the scores from the prediction of a
 Mondrian forest

predict() has a parameter to return the score of each label, but never
wrote it.
---
 src/mondrian.hpp         | 5 +++++
 src/mondrian_coarse.hpp  | 5 +++++
 src/mondrian_unbound.hpp | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 2727584..4e93df1 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -485,6 +485,11 @@ class MondrianForest{
 		for(int k = 0; k < label_count; ++k)
 			sum_posterior_mean[k] /= static_cast<double>(tree_count);
 
+		//If *scores* is not null, then the function will also return the scores it found for each label.
+		if(scores != nullptr)
+			for(int k = 0; k < label_count; ++k)
+				scores[k] = sum_posterior_mean[k];
+
 		//Finally, we look for the best label
 		int best = 0;
 		for(int i = 1; i < label_count; ++i){
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index dd992a5..9294a13 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -3292,6 +3292,11 @@ int predict(feature_type const* features, double* scores = nullptr, int tree_to_
 	for(int k = 0; k < label_count; ++k)
 		sum_posterior_mean[k] /= tree_used;
 
+	//If *scores* is not null, then the function will also return the scores it found for each label.
+	if(scores != nullptr)
+		for(int k = 0; k < label_count; ++k)
+			scores[k] = sum_posterior_mean[k];
+
 	//Finally, we look for the best label
 	return Utils::index_max(sum_posterior_mean, label_count);
 }
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index c50507d..e3e8e9a 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -488,6 +488,11 @@ class MondrianForestUnbound{
 		for(int k = 0; k < label_count; ++k)
 			sum_posterior_mean[k] /= static_cast<double>(tree_count);
 
+		//If *scores* is not null, then the function will also return the scores it found for each label.
+		if(scores != nullptr)
+			for(int k = 0; k < label_count; ++k)
+				scores[k] = sum_posterior_mean[k];
+
 		//Finally, we look for the best label
 		int best = 0;
 		for(int i = 1; i < label_count; ++i){
-- 
2.43.0


From f31230b0441cc56dd868bd03666c11f071659bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 35/63] fix: discount the counts of a Mondrian node instead of
 inflating them

The discount is exp(-discount_factor * (tau - parent_tau)), which is at
most 1. Without the minus, the score of the observed labels decreased, was
negative and the forest predicted labels it had not seen.
---
 src/mondrian.hpp         | 2 +-
 src/mondrian_coarse.hpp  | 2 +-
 src/mondrian_unbound.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 4e93df1..15e42bc 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -312,7 +312,7 @@ class MondrianForest{
 	void compute_posterior_mean(Node const& node, double *posterior_mean) const{
 		//posterior_mean start with the parent posterior_mean and the function updates to the current node
 		double const parent_tau = node.parent >= 0 ? nodes[node.parent].tau : 0; //The tau value of the parent of the root is 0
-		double const node_discount = func::exp(discount_factor * (node.tau - parent_tau));
+		double const node_discount = func::exp(-discount_factor * (node.tau - parent_tau));
 		double sum_counters = 0;
 		double sum_tab = 0;
 		double tab[label_count];
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 9294a13..147718b 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2083,7 +2083,7 @@ bool train_tree(feature_type const* features, int const label, int const tree_id
 void compute_posterior_mean(Node const& node, double *posterior_mean) const{
 	//posterior_mean start with the parent posterior_mean and the function updates to the current node
 	double const parent_tau = node.parent >= 0 ? nodes()[node.parent].tau : 0; //The tau value of the parent of the root is 0
-	double const node_discount = func::exp(discount_factor * (node.tau - parent_tau));
+	double const node_discount = func::exp(-discount_factor * (node.tau - parent_tau));
 	double sum_counters = 0;
 	double sum_tab = 0;
 	double tab[label_count];
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index e3e8e9a..fff88b9 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -90,7 +90,7 @@ class MondrianForestUnbound{
 	void compute_posterior_mean(double *posterior_mean, double const discount_factor) const{
 		//posterior_mean start with the parent posterior_mean and the function updates to the current node
 		double const parent_tau = this->parent != nullptr ? this->parent->tau : 0; //The tau value of the parent of the root is 0
-		double const node_discount = func::exp(discount_factor * (this->tau - parent_tau));
+		double const node_discount = func::exp(-discount_factor * (this->tau - parent_tau));
 		double sum_counters = 0;
 		double sum_tab = 0;
 		double tab[label_count];
-- 
2.43.0


From 16bb49d94149205043f706378728ecbcf589d59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 36/63] fix: apply the discount to the mass given to the
 hypothetical parent

The mass taken from the observed labels (new_node_discount * c_sum) is what
is distributed with the posterior of the parent; it was distributed without
the discount, so the scores were over 1.
---
 src/mondrian.hpp         | 2 +-
 src/mondrian_coarse.hpp  | 2 +-
 src/mondrian_unbound.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 15e42bc..056a21b 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -375,7 +375,7 @@ class MondrianForest{
 
 				for(int l = 0; l < label_count; ++l){
 					//posterior_means of the parent of current_node
-					double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + c_sum * posterior_means[l]);
+					double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + new_node_discount * c_sum * posterior_means[l]);
 					//Note that *posterior_mean* is the value for the hypothetical parent
 					smoothed_posterior_means[l] += probability_not_separated_yet * probability_of_branching * posterior_mean;
 				}
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 147718b..1bdced8 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2149,7 +2149,7 @@ void predict_tree(feature_type const* features, int const tree_id, double* poste
 
 			for(int l = 0; l < label_count; ++l){
 				//posterior_means of the parent of current_node
-				double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + c_sum * posterior_means[l]);
+				double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + new_node_discount * c_sum * posterior_means[l]);
 				//Note that *posterior_mean* is the value for the hypothetical parent
 				smoothed_posterior_means[l] += probability_not_separated_yet * probability_of_branching * posterior_mean;
 			}
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index fff88b9..5391aaa 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -411,7 +411,7 @@ class MondrianForestUnbound{
 
 				for(int l = 0; l < label_count; ++l){
 					//posterior_means of the parent of current_node
-					double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + c_sum * posterior_means[l]);
+					double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + new_node_discount * c_sum * posterior_means[l]);
 					//Note that *posterior_mean* is the value for the hypothetical parent
 					smoothed_posterior_means[l] += probability_not_separated_yet * probability_of_branching * posterior_mean;
 				}
-- 
2.43.0


From 9b1e08de29b9098faf92831988fc024024c984a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 37/63] fix: measure the time since the parent when predicting
 with a Mondrian tree

parent_tau stayed at 0, so the probability to branch off below the root was
computed from the root instead of the parent.
---
 src/mondrian.hpp         | 1 +
 src/mondrian_coarse.hpp  | 1 +
 src/mondrian_unbound.hpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 056a21b..34bb29a 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -391,6 +391,7 @@ class MondrianForest{
 				break;
 			}
 			probability_not_separated_yet *= (1 - probability_of_branching);
+			parent_tau = current_node.tau;
 
 			//Otherwise, the child is picked based on the split of the node
 			if(features[current_node.split_dimension] <= current_node.split_value)
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 1bdced8..13c02e2 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2166,6 +2166,7 @@ void predict_tree(feature_type const* features, int const tree_id, double* poste
 			break;
 		}
 		probability_not_separated_yet *= (1 - probability_of_branching);
+		parent_tau = current_node.tau;
 
 		//Otherwise, the child is picked based on the split of the node
 		if(features[current_node.split_dimension] <= current_node.split_value)
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index 5391aaa..3c2ca88 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -428,6 +428,7 @@ class MondrianForestUnbound{
 			}
 			InternalNode* inode = dynamic_cast<InternalNode*>(current_node);
 			probability_not_separated_yet *= (1 - probability_of_branching);
+			parent_tau = current_node->tau;
 
 			//Otherwise, the child is picked based on the split of the node
 			if(inode->point_go_left(features))
-- 
2.43.0


From 3b2d90131e1a99a1e1f2f05ad4572f01e6c900fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 38/63] fix: never place a Mondrian split on its upper bound

A data point equal to the split value goes left. When the rounding placed
the split on the upper bound, the points on the right side of the split
were routed to the left.
---
 src/mondrian.hpp         |  2 +-
 src/mondrian_coarse.hpp  | 10 +++++-----
 src/mondrian_unbound.hpp |  2 +-
 src/utils.hpp            | 11 +++++++++++
 4 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 34bb29a..80f225b 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -161,7 +161,7 @@ class MondrianForest{
 			}
 
 			//sample the split between [lower_value, upper_value]
-			double const split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+			double const split_value = Utils::rand_between<func>(lower_value, upper_value);
 			int new_parent, new_sibling;
 			//insert new node above the current one
 			new_parent = available_node();
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 13c02e2..33471ea 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -352,7 +352,7 @@ void extend_block0(int const node_id, int const tree_id, feature_type const* fea
 		}
 
 		//sample the split between [lower_value, upper_value]
-		double const split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+		double const split_value = Utils::rand_between<func>(lower_value, upper_value);
 		int new_parent, new_sibling;
 		//insert new node above the current one
 		new_parent = available_node();
@@ -477,7 +477,7 @@ void extend_block2(int const node_id, int const tree_id, feature_type const* fea
 		}
 
 		//sample the split between [lower_value, upper_value]
-		double const split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+		double const split_value = Utils::rand_between<func>(lower_value, upper_value);
 		int new_parent, new_sibling;
 		//insert new node above the current one
 		new_parent = available_node();
@@ -602,7 +602,7 @@ void extend_block1(int const node_id, int const tree_id, feature_type const* fea
 		}
 
 		//sample the split between [lower_value, upper_value]
-		double const split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+		double const split_value = Utils::rand_between<func>(lower_value, upper_value);
 		int new_parent, new_sibling;
 		//insert new node above the current one
 		new_parent = available_node();
@@ -731,7 +731,7 @@ void extend_block3(int const node_id, int const tree_id, feature_type const* fea
 		}
 
 		//sample the split between [lower_value, upper_value]
-		double const split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+		double const split_value = Utils::rand_between<func>(lower_value, upper_value);
 		int new_parent, new_sibling;
 		//insert new node above the current one
 		new_parent = available_node();
@@ -923,7 +923,7 @@ void extend_node(int const node_id, int const tree_id, feature_type const* featu
 		}
 
 		//sample the split between [lower_value, upper_value]
-		double const split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+		double const split_value = Utils::rand_between<func>(lower_value, upper_value);
 		//insert new node above the current one
 		new_parent_id = available_node();
 		nodes()[new_parent_id].split_dimension = dimension;
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index 3c2ca88..6a0566f 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -261,7 +261,7 @@ class MondrianForestUnbound{
 			}
 
 			//sample the split between [lower_value, upper_value]
-			double const split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+			double const split_value = Utils::rand_between<func>(lower_value, upper_value);
 			InternalNode* new_parent = new InternalNode();
 			LeafNode* new_sibling = new LeafNode();
 			count_internal_nodes += 1;
diff --git a/src/utils.hpp b/src/utils.hpp
index 478d080..5b683b4 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -66,6 +66,17 @@ class Utils{
 		double const u = func::rand_uniform(); //Sample a random number between [0,1[
 		return func::log(1-u) / (-rate); //turn it into the exponential distribution
 	}
+	/**
+	 * Pick uniformly a random number within [lower, upper[, assuming lower is less than upper.
+	 * Templates:
+	 * - func: a class type that contains all underlying this one.
+	 *   	+ rand_uniform function: A function that pick uniformly a random number between [0,1[.
+	 */
+	template<class func>
+	static double rand_between(double const lower, double const upper){
+		double const value = func::rand_uniform()*(upper - lower) + lower;
+		return value < upper ? value : lower; //NOTE: the rounding may reach upper
+	}
 	//An inline function that compute the minimum between two numbers
 	template<class T>
 	inline static T min(T const a, T const b){
-- 
2.43.0


From 80b68fd37ab302120ee3084c057c58c7e7d5f849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 39/63] fix: copy the trees of an unbound Mondrian forest

A copy shared the nodes of the original: they were trained by both and
deleted twice.
---
 src/mondrian_unbound.hpp | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index 6a0566f..9fc5d34 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -116,6 +116,10 @@ class MondrianForestUnbound{
 		virtual void update_counters(void)=0;
 		virtual long long int get_counters(int const label) const=0;
 		virtual bool is_leaf(void) const =0;
+		/**
+		 * Return a copy of the node and everything below it.
+		 */
+		virtual MondrianNode* clone(void) const=0;
 		virtual ~MondrianNode(){
 			delete child_left;
 			delete child_right;
@@ -147,6 +151,9 @@ class MondrianForestUnbound{
 		virtual long long int get_counters(int const label) const{
 			return counters[label];
 		}
+		virtual MondrianNode* clone(void) const{
+			return new LeafNode(*this);
+		}
 	};
 	class InternalNode : public MondrianNode{
 		//The features used for the split
@@ -205,6 +212,14 @@ class MondrianForestUnbound{
 		virtual long long int get_counters(int const label) const{
 			return (long long int) counters[label];
 		}
+		virtual MondrianNode* clone(void) const{
+			InternalNode* copy = new InternalNode(*this);
+			copy->child_left = this->child_left->clone();
+			copy->child_right = this->child_right->clone();
+			copy->child_left->parent = copy;
+			copy->child_right->parent = copy;
+			return copy;
+		}
 	};
 	//The node_id of the roots of each tree
 	vector<MondrianNode*> roots;
@@ -452,6 +467,28 @@ class MondrianForestUnbound{
 		//Init all roots as empty
 		roots.resize(tree_count, nullptr);
 	}
+	/**
+	 * Copy constructor.
+	 */
+	MondrianForestUnbound(MondrianForestUnbound const& other): roots(other.roots), lifetime(other.lifetime), base_measure(other.base_measure), discount_factor(other.discount_factor), tree_count(other.tree_count), count_internal_nodes(other.count_internal_nodes), count_leaf_nodes(other.count_leaf_nodes), count_data_point(other.count_data_point){
+		for(MondrianNode*& root : roots)
+			if(root != nullptr)
+				root = root->clone();
+	}
+	/**
+	 * Overload of the = operator.
+	 */
+	MondrianForestUnbound& operator=(MondrianForestUnbound other){
+		roots.swap(other.roots); //NOTE: the previous trees are deleted with *other*
+		lifetime = other.lifetime;
+		base_measure = other.base_measure;
+		discount_factor = other.discount_factor;
+		tree_count = other.tree_count;
+		count_internal_nodes = other.count_internal_nodes;
+		count_leaf_nodes = other.count_leaf_nodes;
+		count_data_point = other.count_data_point;
+		return *this;
+	}
 	/**
 	 * Train all trees of the forest with a new data point.
 	 * Return false if a tree has failed to be trained.
-- 
2.43.0


From 50c1d013a0a0e48e9601777e50c4087f3b9808ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 40/63] fix: train the trees while nodes are available with
 EXTEND_NONE

EXTEND_NONE, the default, refuses to train once the memory is full. Before
that, it silently dropped all data points but the first one.
---
 src/mondrian_coarse.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 33471ea..8cea38d 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2062,8 +2062,12 @@ bool train_tree(feature_type const* features, int const label, int const tree_id
 
 		if(extend_type == EXTEND_ORIGINAL)
 			extend_block0(root_id, tree_id, features, label);
-		else if(extend_type == EXTEND_NONE && node_available <= 2)
-			ret = false;
+		else if(extend_type == EXTEND_NONE){
+			if(node_available <= 2)
+				ret = false;
+			else
+				extend_block0(root_id, tree_id, features, label);
+		}
 		else if(extend_type == EXTEND_PARTIAL_UPDATE)
 			extend_block2(root_id, tree_id, features, label);
 		else if(extend_type == EXTEND_GHOST)
-- 
2.43.0


From a9fa395342e77e3e33cadbdb36a452dd1803cc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 41/63] fix: let the trees grow with cobble management and no
 size limit

The default size limit is -1 (none), but it was used as the maximum depth:
the trees never had more than their root.
---
 src/mondrian_coarse.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 8cea38d..bbb9e09 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2873,6 +2873,9 @@ CoarseMondrianForest(double const lifetime, double const base_measure, double co
 	this->node_count = (remaining_memory - (remaining_memory%sizeof(Node))) / sizeof(Node);
 	this->node_available = node_count;
 	this->maximum_tree_count = (node_count - node_count%7)/7;
+	//Without a limit, a tree can only be as deep as the number of nodes.
+	if(size_limit <= 0 && (tree_management == COBBLE_MANAGEMENT || tree_management == OPTIMISTIC_COBBLE_MANAGEMENT))
+		size_limit = node_count;
 	//Init all roots as empty
 	TreeBase* bases = tree_bases();
 	for(int i = 0; i < tree_count; ++i)
-- 
2.43.0


From 1bf0659355aacaa468aec1ef6d84b54335bce753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 42/63] fix: compute the depth of a Mondrian tree of any depth

node_depth, called for each training with cobble management, wrote past its
stack of 100 levels on a deeper tree.
---
 src/mondrian_coarse.hpp | 35 ++++++++++-------------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index bbb9e09..23f1e37 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2278,54 +2278,39 @@ int tree_depth(int const tree_id, int* tree_node_count) const{
 }
 template<int max_stack_size=100>
 int node_depth(int const start_id, int* tree_node_count) const{
-	//Initialize an array to keep track of where we have to go at each tree level.
-	//The max depth expected is MAX_DEPTH.
-	int stack[max_stack_size];
-	for(int i = 0; i < max_stack_size; ++i)
-		stack[i] = -1;
-
-	int node_id = start_id;
+	//*previous_id* is the node we come from, it tells where we have to go next.
+	int node_id = start_id, previous_id = nodes()[start_id].parent;
 	int depth = 0, max_depth = 0;
 
-	//a for loop instead of a while to avoid infinite loops. Since we don't expect to do more turn than node_count
-	//*i* count the number of node deleted.
+	//*i* count the number of nodes.
 	int i = 0;
-	int depth_id = start_id;
 	while(i < node_count && depth >= 0){
 		Node const& node = nodes()[node_id];
-		if (node.is_leaf()){
+		int const from_id = previous_id;
+		previous_id = node_id;
+		if(node.is_leaf()){
 			i += 1;
 			//acknowledge the depth
-			if(depth > max_depth){
+			if(depth > max_depth)
 				max_depth = depth;
-				depth_id = node_id;
-			}
 
 			node_id = node.parent;
 			depth -= 1;
 		}
 		else{ //Internal Node
-			if (stack[depth] == -1){ //going right
-				stack[depth] = 0;
+			if(from_id == node.parent){ //going right
 				depth += 1;
 				node_id = node.child_right;
 			}
-			else if (stack[depth] == 0){ //Go left
-				stack[depth] = 1;
+			else if(from_id == node.child_right){ //Go left
 				depth += 1;
 				node_id = node.child_left;
 			}
-			else if (stack[depth] == 1){ //Go up
+			else{ //Go up
 				i += 1;
-				stack[depth] = -1; //Reset to -1
 				depth -= 1;
 				node_id = node.parent;
 			}
-			#ifdef DEBUG
-			else{
-				cout << __FILE__ << ":" << __LINE__ << " CoarseMondrianForest::node_depth: stack[" << depth << "] == " << stack[depth] << " (should be -1, 0, or 1)" << endl;
-			}
-			#endif
 		}
 	}
 	if(tree_node_count != nullptr)
-- 
2.43.0


From ff0c9460472c53ab01e0c0e84a08932e2b9dc14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 43/63] fix: count a data point once with
 EXTEND_COUNTER_NO_UPDATE

A data point that introduced a new leaf was counted in that leaf, then a
second time in the leaf of the split node.
---
 src/mondrian_coarse.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 23f1e37..a75a9a1 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -783,6 +783,7 @@ void extend_block3(int const node_id, int const tree_id, feature_type const* fea
 		}
 
 		sample_block(new_sibling, features, label);
+		return; //The new sibling has counted the data point
 	}
 	else if(E < 0 || parent_tau + E > node.tau){ //Otherwise, just update the box
 		//update lower bound and upper bound of this node
-- 
2.43.0


From 3b412de587d332ab3dd12de4b61306e84ca70f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 44/63] fix: pause the trees that reach their limit with robur
 management

The size of a tree, which is compared to its limit, was neither initialised
nor updated: the limit was not respected.
---
 src/mondrian_coarse.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index a75a9a1..4c9f5d5 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -215,6 +215,7 @@ struct TreeBase{
 	}
 	void reset(int const node_limit=1){
 		root = EMPTY_ROOT;
+		size = 0;
 		node_count_limit = node_limit;
 		statistics.reset();
 		sum_contribution = 0;
@@ -1755,8 +1756,10 @@ void tree_trim(){
 		return;
 	for(int i = 0; i < tree_count; ++i){
 		int id = tree_trim(i);
-		if(tree_bases()[i].root != id && id >= 0 && id < node_count) //Can't cut the root
+		if(tree_bases()[i].root != id && id >= 0 && id < node_count){ //Can't cut the root
 			cut_block(id, i);
+			update_tree_size(i);
+		}
 	}
 }
 template<int max_stack_size=100>
@@ -2252,6 +2255,17 @@ void update_posterior_count(void){
 		if(!bases[i].is_empty())
 			update_posterior_count(bases[i].root);
 }
+/**
+ * Update the size of a tree, if the tree management is based on it.
+ * @param tree_id The id of the tree which is an index between 0 and tree_count.
+ */
+void update_tree_size(int const tree_id){
+	if(tree_management != ROBUR_MANAGEMENT && tree_management != PAUSING_PHOENIX_MANAGEMENT)
+		return;
+	int tree_node_count = 0;
+	int const depth = tree_depth(tree_id, &tree_node_count);
+	tree_bases()[tree_id].size = size_type == DEPTH_SIZE ? depth : tree_node_count;
+}
 double average_tree_size(void) const{
 	double sum = 0;
 	TreeBase const* tb = tree_bases();
@@ -2936,6 +2950,7 @@ bool train(feature_type const* features, int const label){
 		bool has_trained = train_tree(features, label, tree_order[i]);
 		if(!has_trained)
 			fully_trained = false;
+		update_tree_size(tree_order[i]);
         #ifdef UNBOUND_OPTIMIZE
 		update_posterior_count(tree_order[i], features, label);
         #endif
-- 
2.43.0


From 9050f608e66c3dca40bbecfa99caaabeabb0d542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 45/63] fix: align the nodes and the trees in the buffer of the
 coarse Mondrian

The buffer had the alignment of char, and the trees were stored from its
end, whatever its size.
---
 src/mondrian_coarse.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 4c9f5d5..419300f 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -238,7 +238,10 @@ struct TreeBase{
 };
 private:
 
-unsigned char buffer[max_size];
+//NOTE: the end of the buffer is aligned because the tree bases are stored from there
+static int const usable_size = max_size - max_size % alignof(TreeBase);
+static int const buffer_alignment = alignof(Node) > alignof(TreeBase) ? alignof(Node) : alignof(TreeBase);
+alignas(buffer_alignment) unsigned char buffer[max_size];
 
 unsigned int total_count = 0;
 
@@ -275,10 +278,10 @@ Node const* nodes() const {
 	return reinterpret_cast<Node const*>(buffer);
 }
 TreeBase* tree_bases() {
-	return reinterpret_cast<TreeBase*>(buffer + max_size - tree_count * sizeof(TreeBase));
+	return reinterpret_cast<TreeBase*>(buffer + usable_size - tree_count * sizeof(TreeBase));
 }
 TreeBase const* tree_bases() const{
-	return reinterpret_cast<TreeBase const*>(buffer + max_size - tree_count * sizeof(TreeBase));
+	return reinterpret_cast<TreeBase const*>(buffer + usable_size - tree_count * sizeof(TreeBase));
 }
 /**
  *	Return the index of an empty node.
@@ -2459,7 +2462,7 @@ void relocate_node(int const old_index, int const new_index){
 	}
 }
 bool tree_add(void){
-	int const index_tree_base = max_size - tree_count * sizeof(TreeBase);
+	int const index_tree_base = usable_size - tree_count * sizeof(TreeBase);
 	int const new_index_tree_base = index_tree_base - sizeof(TreeBase);
 	int const index_last_node = node_count * sizeof(Node);
 
@@ -2492,7 +2495,7 @@ bool tree_delete(int const tree_id){
 	tree_reset(tree_id);
 	//From here, the tree *tree_id* should only have the root active.
 
-	int const index_tree_base = max_size - tree_count * sizeof(TreeBase);
+	int const index_tree_base = usable_size - tree_count * sizeof(TreeBase);
 	int const new_index_tree_base = index_tree_base + sizeof(TreeBase);
 	int const index_last_node = node_count * sizeof(Node);
 
@@ -2869,7 +2872,7 @@ CoarseMondrianForest(double const lifetime, double const base_measure, double co
 	this->tree_count = tree_count;
 
 	int const statistics_memory = tree_count * sizeof(TreeBase);
-	int const remaining_memory = max_size - statistics_memory;
+	int const remaining_memory = usable_size - statistics_memory;
 	this->node_count = (remaining_memory - (remaining_memory%sizeof(Node))) / sizeof(Node);
 	this->node_available = node_count;
 	this->maximum_tree_count = (node_count - node_count%7)/7;
@@ -3002,7 +3005,7 @@ bool train(feature_type const* features, int const label){
 	}
 	if(node_available <= 1){ //Remove trees
 		if(false && total_count > 0 && total_count%500 == 0 && tree_count < 5){
-			int const index_tree_base = max_size - tree_count * sizeof(TreeBase);
+			int const index_tree_base = usable_size - tree_count * sizeof(TreeBase);
 			int const new_index_tree_base = index_tree_base - sizeof(TreeBase);
 			int const index_last_node = node_count * sizeof(Node);
 			int const space_to_free = index_last_node - new_index_tree_base;
-- 
2.43.0


From efb2bbee0f6c3aaa17d1dea8de43886a7831e142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 46/63] fix: start the sum of the features of a Mondrian forest
 at zero

It was read uninitialised by the first training.
---
 src/mondrian_coarse.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 419300f..e3e0c7d 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2903,6 +2903,8 @@ CoarseMondrianForest(double const lifetime, double const base_measure, double co
 			tree_bases()[i].reset(node_count);
 	for(int i = 0; i < node_count; ++i)
 		nodes()[i].reset();
+	for(int i = 0; i < feature_count; ++i)
+		sum_features[i] = 0;
 #ifdef DEBUG
 	cout << "Tree Count = " << this->tree_count << endl;
 	cout << "Node Count = " << this->node_count << endl;
-- 
2.43.0


From 54f89ef7cee8fffb43cddeff5eb2be437fd4f427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 47/63] fix: do not share the last returned node between
 Mondrian forests

A static variable made the nodes used by a forest, thus its structure,
depend on the other forests of the program.
---
 src/mondrian_coarse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index e3e0c7d..51df497 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -269,6 +269,7 @@ double fading_count = 1;//fading factor for the average point
 double nodes_fading_f = 0.995; //Fading factor of node
 double maximum_trim_size = 1.00;
 int has_been_full = 0;
+mutable int last_returned_node = 0; //Where the search of an available node starts
 
 
 Node* nodes() {
@@ -289,7 +290,6 @@ TreeBase const* tree_bases() const{
 int available_node(void) const{
 	if(node_available == 0)
 		return -1;
-	static int last_returned_node = 0;
 	for(int i = 0; i < node_count; ++i){
 		int const node_id = (i + last_returned_node) % node_count;
 		if(nodes()[node_id].available()){
-- 
2.43.0


From ae9d9e0ca29b7605e577ec3f7a5df33083f3428b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:32 +0000
Subject: [PATCH 48/63] fix: copy the chains of a chained reservoir

A copy shared the nodes of the chains with the original: the elements added
to one of them replaced the ones of the other.
---
 src/chained_reservoir.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 295d155..6b5732f 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -109,6 +109,30 @@ class ChainedReservoirSampling{
 		for(int i = 0; i < sample_size; ++i)
 			next[i] = 4294967294; //`next` cannot be negative so to avoid 0 to be assign to all sample, it is set to the maximum for an int
 	}
+	/**
+	 * Copy constructor.
+	 */
+	ChainedReservoirSampling(ChainedReservoirSampling const& src): ChainedReservoirSampling(){
+		*this = src;
+	}
+	/**
+	 * Copy the elements of another reservoir, including the ones in its chains.
+	 */
+	ChainedReservoirSampling& operator=(ChainedReservoirSampling const& src){
+		if(this == &src)
+			return *this;
+		counter = src.counter;
+		for(int i = 0; i < sample_size; ++i){
+			sample[i].element = src.sample[i].element;
+			sample[i].timestamp = src.sample[i].timestamp;
+			next[i] = src.next[i];
+			clear_chain(sample[i].next); //The cells of our chain are used again
+			for(node const* current = src.sample[i].next; current != NULL; current = current->next)
+				if(current->timestamp != 0)
+					push_on_chain(sample[i], current->element, current->timestamp);
+		}
+		return *this;
+	}
 	/**
 	 * Sample one new element into the sample. This new element may not be added.
 	 * @param e The new element to eventualy add to the sample.
-- 
2.43.0


From a9441ae1663f305ba71385d3c4709fd0815479db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:26 +0000
Subject: [PATCH 49/63] fix: let the cuckoo filter move any entry of a bucket

The last entry of a bucket was never moved. With two entries per bucket, a
single one could move and elements were refused in a filter mostly empty.
---
 src/cuckoo_filter.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cuckoo_filter.hpp b/src/cuckoo_filter.hpp
index aac608e..201b5ad 100644
--- a/src/cuckoo_filter.hpp
+++ b/src/cuckoo_filter.hpp
@@ -192,7 +192,10 @@ class CuckooFilter{
 			else{
 				double a = random_function();
 				auto h = a > 0.5 ? h1 : h2;
-				auto space_h = static_cast<unsigned int>(floor(random_function() * (bucket_size-1)));
+				auto space_h = static_cast<unsigned int>(floor(random_function() * bucket_size));
+				//The random function may return exactly 1
+				if(space_h >= bucket_size)
+					space_h = bucket_size - 1;
 				fingerprint_t tmp = get_entry(h, space_h);
 				set_entry(h, space_h, fp);
 				fp = tmp;
-- 
2.43.0


From 8e80cb229e990e2381a53eb5879d027a18396499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 50/63] fix: store eight bits per byte in the Bloom and cuckoo
 filters

BYTE_SIZE is the number of bits in a byte, but it was 1: each bit of the
filters took a byte.
---
 src/bloom_filter.hpp  | 4 ++--
 src/cuckoo_filter.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bloom_filter.hpp b/src/bloom_filter.hpp
index 081726c..f66de67 100644
--- a/src/bloom_filter.hpp
+++ b/src/bloom_filter.hpp
@@ -1,7 +1,7 @@
 #include <cassert>
 
 //Typedef to simplify the use of the hash function given by the user.
-#define BYTE_SIZE (sizeof(unsigned char))
+#define BYTE_SIZE (8 * sizeof(unsigned char))
 
 /**
  * The BloomFilter class implement the Bloom filter algorithm.
@@ -12,7 +12,7 @@
 template<class element_type, int bit_size, int hash_count>
 class BloomFilter{
 	typedef unsigned int (*hash_function_t)(element_type*);
-	unsigned char bits[bit_size];
+	unsigned char bits[(bit_size + BYTE_SIZE - 1) / BYTE_SIZE];
 	hash_function_t hashs[hash_count];
 	unsigned int const real_size = ((bit_size - (bit_size%BYTE_SIZE)) / BYTE_SIZE) + ((bit_size%BYTE_SIZE) > 0);
 
diff --git a/src/cuckoo_filter.hpp b/src/cuckoo_filter.hpp
index 201b5ad..fbb536a 100644
--- a/src/cuckoo_filter.hpp
+++ b/src/cuckoo_filter.hpp
@@ -4,7 +4,7 @@
 
 #include <utility>
 
-#define BYTE_SIZE (sizeof(unsigned char))
+#define BYTE_SIZE (8 * sizeof(unsigned char))
 /**
  * CuckooFilter class implements the Cuckoo Filter algorithm.
  * Templates:
-- 
2.43.0


From f118c4431b30b4d34d2cb106c715a8f91676b8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 51/63] fix: count the points of a leaf on the side of the
 split where they are

count_sides counted the leaves below the split on the right, and the
leaves above it on the left.
---
 src/mondrian_coarse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 51df497..1e1082d 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1299,9 +1299,9 @@ int count_sides(int const start_id, int const split_dimension, double const spli
 				count_left += left;
 				count_right += right;
 			}
-			else if(split_value <= lower)
-				count_left += count;
 			else if(split_value >= upper)
+				count_left += count;
+			else if(split_value <= lower)
 				count_right += count;
 
 			if(node_id == start_id)
-- 
2.43.0


From b37ef5d9641943136867a8f07e0997f3cc7fbef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:10 +0000
Subject: [PATCH 52/63] fix: neither lose nor create data points when a leaf is
 split

The two parts of a counter were rounded independently.
---
 src/mondrian_coarse.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 1e1082d..bef4e98 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1495,10 +1495,7 @@ int adjust_counters(int const start_id, int split_dimension, double split_value,
 				percentage = 1 - percentage;
 			for(int i = 0; i < label_count; ++i){
 				int counter_out = Utils::round(static_cast<double>(node.counters[i]) * percentage);
-				int counter_in = Utils::round(static_cast<double>(node.counters[i]) * (1 - percentage));
-				int const err = node.counters[i] - counter_in - counter_out;
-				if(err != 0)
-					cout << "Error counters" << endl;
+				int const counter_in = node.counters[i] - counter_out;
 				to_remove[i] += counter_out;
 				node.counters[i] = counter_in;
 			}
-- 
2.43.0


From 498c62593b67402dcee8b8e0f2b228de03928c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:13 +0000
Subject: [PATCH 53/63] fix: predict with leaves that have no data points

A split can leave a node without data points: the scores were NaN.
---
 src/mondrian_coarse.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index bef4e98..67971f8 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2157,7 +2157,8 @@ void predict_tree(feature_type const* features, int const tree_id, double* poste
 
 			for(int l = 0; l < label_count; ++l){
 				//posterior_means of the parent of current_node
-				double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + new_node_discount * c_sum * posterior_means[l]);
+				//A node without data points only has the posterior mean of its parent
+				double const posterior_mean = c_sum == 0 ? posterior_means[l] : (1/c_sum) * (c[l] - new_node_discount * c[l] + new_node_discount * c_sum * posterior_means[l]);
 				//Note that *posterior_mean* is the value for the hypothetical parent
 				smoothed_posterior_means[l] += probability_not_separated_yet * probability_of_branching * posterior_mean;
 			}
-- 
2.43.0


From f95edaa9d960ff61242f396940bf858b06c85258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 54/63] fix: do not split a leaf of a paused tree around the
 barycenter

The tree grew beyond its limit.
---
 src/mondrian_coarse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 67971f8..7981bc9 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -896,7 +896,7 @@ void extend_block4(int const node_id, int const tree_id, feature_type const* fea
 			bool has_split_bary = false;
 			//PAUSE
 			//if(!((total_count >= 20 && total_count <= 150)) && E < 0 && node_available >= 2){//Data point in the box
-			if(has_been_full > 20 && E < 0 && node_available >= 2){//Data point in the box
+			if(has_been_full > 20 && E < 0 && node_available >= 2 && !pause_expension){//Data point in the box
 					has_split_bary = split_barycenter(node_id, tree_id, features, label, parent_id, parent_tau);
 			}
 			if(!has_split_bary){
-- 
2.43.0


From 924bedc57b9cab9b460c716a8fbfa915c29d10ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 55/63] fix: compare the score of the label 0 with the second
 best score

It was compared with itself.
---
 src/mondrian_coarse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 7981bc9..c45f829 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -3266,7 +3266,7 @@ void scory(feature_type const* features, int const label){
 double eval_scores(double const* score, int const label) const{
 	int idx_max = Utils::index_max(score, label_count); //Find the predicted label
 	if(idx_max == label){ //The label is the one predicted, so we get the second class
-		idx_max = 0;
+		idx_max = (label == 0 && label_count > 1) ? 1 : 0;
 		for(int i = 1; i < label_count; ++i)
 			if(i != label && score[i] > score[idx_max])
 				idx_max = i;
-- 
2.43.0


From 2bc6094c09aca074d2c210b38cc27aed7bbab46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 56/63] fix: print the sum of the scores of all trees

The scores of the last tree were printed, and with the extend type GHOST
printing overwrote the counters of the nodes.
---
 src/mondrian_coarse.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index c45f829..1cb3424 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -3242,9 +3242,10 @@ void printy(void) const{
 }
 void scory(feature_type const* features, int const label){
 	double scores[label_count];
-	double sum_scores[label_count];
+	double sum_scores[label_count] = {0};
 
-	update_posterior_count();
+	if(extend_type != EXTEND_GHOST)
+		update_posterior_count();
 	for(int i = 0; i < tree_count; ++i){
 		for(int j = 0; j < label_count; ++j)
 			scores[j] = 0;
@@ -3255,7 +3256,7 @@ void scory(feature_type const* features, int const label){
 			cout << "," << scores[j];
 		cout << endl;
 		for(int j = 0; j < label_count; ++j)
-			sum_scores[j] = scores[j];
+			sum_scores[j] += scores[j];
 	}
 	int const prediction = Utils::index_max(sum_scores, label_count);
 	cout << "Loutre:" << total_count << "," << -1 << "," << label << "," << prediction;
-- 
2.43.0


From b953d9cc689ba5ce80526928c671ccfb049a07d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 57/63] fix: keep the counters of the GHOST nodes when
 contributions are computed

---
 src/mondrian_coarse.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 1cb3424..9a4fffe 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -3068,7 +3068,8 @@ void otter(feature_type const* features, int const label){
 	double full_score[label_count];
 	int depths[tree_count];
 	//Update internal count
-	update_posterior_count();
+	if(extend_type != EXTEND_GHOST)
+		update_posterior_count();
 
 	//Set everything to 0
 	for(int i = 0; i < tree_count; ++i)
-- 
2.43.0


From 2628ba8457e48238886a8cc7cbf8ee6d0316da97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 58/63] fix: print empty trees and trees deeper than 100 nodes

The node -1 was read, and the stack overflowed.
---
 src/mondrian_coarse.hpp | 35 ++++++++++-------------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 9a4fffe..7272dd0 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -3184,56 +3184,41 @@ void node_csv(int const tree_id, int const node_id, int const depth, int const l
 }
 template<int max_stack_size=100>
 void tree_printy(int const tree_id, int const start_id) const{
-	//Initialize an array to keep track of where we have to go at each tree level.
-	//The max depth expected is MAX_DEPTH.
-	int stack[max_stack_size];
-	for(int i = 0; i < max_stack_size; ++i)
-		stack[i] = -1;
-
-	int node_id = start_id;
-	int depth = 0, max_depth = 0;
+	if(start_id < 0) //The tree is empty
+		return;
+	//*previous_id* is the node we come from, it tells where we have to go next.
+	int node_id = start_id, previous_id = nodes()[start_id].parent;
+	int depth = 0;
 
 	//a for loop instead of a while to avoid infinite loops. Since we don't expect to do more turn than node_count
 	//*i* count the number of node deleted.
 	int i = 0;
-	int depth_id = start_id;
 	while(i < node_count && depth >= 0){
 		Node const& node = nodes()[node_id];
+		int const from_id = previous_id;
+		previous_id = node_id;
 		if (node.is_leaf()){
 			i += 1;
-			//acknowledge the depth
-			if(depth > max_depth){
-				max_depth = depth;
-				depth_id = node_id;
-			}
 			node_csv(tree_id, node_id, depth, 1, node);
 
 			node_id = node.parent;
 			depth -= 1;
 		}
 		else{ //Internal Node
-			if (stack[depth] == -1){ //going right
-				stack[depth] = 0;
+			if (from_id == node.parent){ //going right
 				node_csv(tree_id, node_id, depth, 0, node);
 				depth += 1;
 				node_id = node.child_right;
 			}
-			else if (stack[depth] == 0){ //Go left
-				stack[depth] = 1;
+			else if (from_id == node.child_right){ //Go left
 				depth += 1;
 				node_id = node.child_left;
 			}
-			else if (stack[depth] == 1){ //Go up
+			else{ //Go up
 				i += 1;
-				stack[depth] = -1; //Reset to -1
 				depth -= 1;
 				node_id = node.parent;
 			}
-			#ifdef DEBUG
-			else{
-				cout << __FILE__ << ":" << __LINE__ << " CoarseMondrianForest::node_depth: stack[" << depth << "] == " << stack[depth] << " (should be -1, 0, or 1)" << endl;
-			}
-			#endif
 		}
 	}
 }
-- 
2.43.0


From 450d5d777c88df592ebd3b379ef171e668da4629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:07 +0000
Subject: [PATCH 59/63] fix: CoarseMondrianForest: no static flag written by
 every instance

The flag was only used by a message that is commented out, but instances trained in different threads raced on it.
---
 src/mondrian_coarse.hpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 7272dd0..dcda28a 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2930,11 +2930,6 @@ bool train(feature_type const* features, int const label){
 		scory(features, label);
 	}
 
-	static bool checked = false;
-	if(has_been_full > 1 && !checked){
-		//cout << "Full memory!" << endl;
-		checked = true;
-	}
 	//Fade the count of the average point
 	for(int i = 0; i < feature_count; ++i)
 		sum_features[i] = sum_features[i]*fading_count + features[i];
-- 
2.43.0


From f1c55ac0dcf788bd1f3b880c5dbf2ec2fc02e154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:06 +0000
Subject: [PATCH 60/63] fix: share the points of a leaf that is split by the
 coarse forest

The box of the node was cut at the split before the points were shared in
proportion to the parts of that box on both sides: the new sibling of a leaf
never received a point.
---
 src/mondrian_coarse.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index dcda28a..f89b76d 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1046,6 +1046,12 @@ void split_node(int const node_id, int const tree_id, feature_type const* featur
 	int count_left = 0, count_right = 0;
 	count_sides(node_id, dimension, split_value, count_left, count_right);
 	bool const subtree_on_left = (count_left > count_right);
+	int to_remove[label_count] = {0};
+	//If subtree_on_left, then discharge on right
+	adjust_counters(node_id, dimension, split_value, !subtree_on_left, to_remove);
+	//Place the new counters in new_sibling
+	for(int i = 0; i < label_count; ++i)
+		new_sibling.counters[i] += to_remove[i];
 	//If more count are higher than split ---> new sibling goes left
 	//set the connections
 	if(subtree_on_left){
@@ -1085,12 +1091,6 @@ void split_node(int const node_id, int const tree_id, feature_type const* featur
 	}
 	new_parent.forced_extend = 0;
 
-	int to_remove[label_count] = {0};
-	//If subtree_on_left, then discharge on right
-	adjust_counters(node_id, dimension, split_value, !subtree_on_left, to_remove);
-	//Place the new counters in new_sibling
-	for(int i = 0; i < label_count; ++i)
-		new_sibling.counters[i] += to_remove[i];
 	//Adjust the boxes' bound and reshape the tree is needed
 	adjust_boxes(node_id, dimension, split_value, subtree_on_left, tree_id);
 
@@ -1184,6 +1184,12 @@ bool split_barycenter(int const node_id, int const tree_id, feature_type const*
 	int count_left = 0, count_right = 0;
 	count_sides(node_id, dimension, split_value, count_left, count_right);
 	bool const subtree_on_left = (count_left > count_right);
+	int to_remove[label_count] = {0};
+	//If subtree_on_left, then discharge on right
+	adjust_counters(node_id, dimension, split_value, !subtree_on_left, to_remove);
+	//Place the new counters in new_sibling
+	for(int i = 0; i < label_count; ++i)
+		new_sibling.counters[i] += to_remove[i];
 	//If more count are higher than split ---> new sibling goes left
 	//set the connections
 	if(subtree_on_left){
@@ -1223,12 +1229,6 @@ bool split_barycenter(int const node_id, int const tree_id, feature_type const*
 	}
 	new_parent.forced_extend = 0;
 
-	int to_remove[label_count] = {0};
-	//If subtree_on_left, then discharge on right
-	adjust_counters(node_id, dimension, split_value, !subtree_on_left, to_remove);
-	//Place the new counters in new_sibling
-	for(int i = 0; i < label_count; ++i)
-		new_sibling.counters[i] += to_remove[i];
 	//Adjust the boxes' bound and reshape the tree is needed
 	adjust_boxes(node_id, dimension, split_value, subtree_on_left, tree_id);
 
-- 
2.43.0


From 2ceae1bff1bc4fdd6f2d435ee521b8167cf60144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:09 +0000
Subject: [PATCH 61/63] fix: share the forced extensions in proportion to the
 points

The share of the points on the left was used for the node that stays on the
right too.
---
 src/mondrian_coarse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index f89b76d..5f2fab2 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1081,7 +1081,7 @@ void split_node(int const node_id, int const tree_id, feature_type const* featur
 	}
 	else if(fe_distribution == FE_DISTRIBUTION_PROPORTIONAL){
 		double const sum_count = static_cast<double>(count_left + count_right);
-		double const ratio_fe = subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_left)/sum_count;
+		double const ratio_fe = subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_right)/sum_count;
 		new_sibling.forced_extend = (1-ratio_fe) * node.forced_extend;
 		node.forced_extend *= ratio_fe;
 	}
@@ -1219,7 +1219,7 @@ bool split_barycenter(int const node_id, int const tree_id, feature_type const*
 	}
 	else if(fe_distribution == FE_DISTRIBUTION_PROPORTIONAL){
 		double const sum_count = static_cast<double>(count_left + count_right);
-		double const ratio_fe = subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_left)/sum_count;
+		double const ratio_fe = subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_right)/sum_count;
 		new_sibling.forced_extend = (1-ratio_fe) * node.forced_extend;
 		node.forced_extend *= ratio_fe;
 	}
-- 
2.43.0


From fa2fbd38d99e02d32c48fe593fd28bc01a61af93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:12 +0000
Subject: [PATCH 62/63] fix: share the forced extensions of a node without
 points

The ratio was 0/0, which was then converted to an integer.
---
 src/mondrian_coarse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 5f2fab2..d4d4cdb 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1081,7 +1081,7 @@ void split_node(int const node_id, int const tree_id, feature_type const* featur
 	}
 	else if(fe_distribution == FE_DISTRIBUTION_PROPORTIONAL){
 		double const sum_count = static_cast<double>(count_left + count_right);
-		double const ratio_fe = subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_right)/sum_count;
+		double const ratio_fe = sum_count == 0 ? 0.5 : subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_right)/sum_count;
 		new_sibling.forced_extend = (1-ratio_fe) * node.forced_extend;
 		node.forced_extend *= ratio_fe;
 	}
@@ -1219,7 +1219,7 @@ bool split_barycenter(int const node_id, int const tree_id, feature_type const*
 	}
 	else if(fe_distribution == FE_DISTRIBUTION_PROPORTIONAL){
 		double const sum_count = static_cast<double>(count_left + count_right);
-		double const ratio_fe = subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_right)/sum_count;
+		double const ratio_fe = sum_count == 0 ? 0.5 : subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_right)/sum_count;
 		new_sibling.forced_extend = (1-ratio_fe) * node.forced_extend;
 		node.forced_extend *= ratio_fe;
 	}
-- 
2.43.0


From 8e0653c22b9fb45fe72657dbf5a13fabf48695e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:45 +0000
Subject: [PATCH 63/63] fix: keep the cells of the chains when the slots are
 filled again

A reservoir that was assigned an empty one lost the cells of its chains at
its next additions, and allocated others.
---
 src/chained_reservoir.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 6b5732f..baa4e61 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -141,7 +141,6 @@ class ChainedReservoirSampling{
 		if(counter < sample_size){
 			sample[counter].element = e;
 			sample[counter].timestamp = timestamp;
-			sample[counter].next = NULL;
 			next[counter] = counter + 1 + random_index();
 		}
 		else{
-- 
2.43.0

