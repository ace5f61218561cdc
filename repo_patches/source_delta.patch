From 2741afb78112f2be9602830362b86e6b9aa7baa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:41 +0000
Subject: [PATCH 01/29] fix: size the SZ 2D/3D output buffer for incompressible
 and tiny inputs

The estimate of 1.2 * raw size ignored the header, the Huffman tree and the
verbatim values, so small or hard to compress inputs overflowed the heap.
---
 include/sz_compression_utils.hpp |  8 ++++++++
 src/sz_compress_3d.cpp           | 20 ++++++++++++--------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/sz_compression_utils.hpp b/include/sz_compression_utils.hpp
index a335c15..d0089d2 100644
--- a/include/sz_compression_utils.hpp
+++ b/include/sz_compression_utils.hpp
@@ -120,4 +120,12 @@ build_Huffman_tree(const int * type, size_t num_elements, size_t state_num);
 void
 Huffman_encode_tree_and_data(size_t state_num, const int * type, size_t num_elements, unsigned char*& compressed_pos);
 
+// upper bound of the bytes Huffman_encode_tree_and_data may touch:
+// header, tree (at most 13 bytes per node), codes and the 8-byte stores of the encoder
+inline size_t
+Huffman_encode_max_size(size_t state_num, size_t num_elements){
+	size_t max_node_count = 2 * ((state_num < num_elements) ? state_num : num_elements) + 1;
+	return 2*sizeof(size_t) + sizeof(unsigned int) + 1 + 13*max_node_count + sizeof(int)*num_elements + 16;
+}
+
 #endif
diff --git a/src/sz_compress_3d.cpp b/src/sz_compress_3d.cpp
index 941ee10..31ee312 100644
--- a/src/sz_compress_3d.cpp
+++ b/src/sz_compress_3d.cpp
@@ -95,8 +95,9 @@ sz_compress_2d(const T * data, size_t r1, size_t r2, double precision, size_t& c
 	size_t reg_count = prediction_and_quantization_2d_with_border_prediction(data, size, mean_info, precision, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t est_size = 256 + unpredictable_count*sizeof(T) + size.num_blocks
+		+ (reg_unpredictable_data_pos - reg_unpredictable_data)*sizeof(float) + Huffman_encode_max_size(2*RegCoeffCapacity, RegCoeffNum2d*reg_count)
+		+ Huffman_encode_max_size(2*capacity, size.num_elements);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
@@ -212,8 +213,9 @@ sz_compress_2d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	size_t reg_count = prediction_and_quantization_2d_with_border_prediction_with_eb(data, precisions, size, mean_info, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t est_size = 256 + unpredictable_count*sizeof(T) + size.num_blocks
+		+ (reg_unpredictable_data_pos - reg_unpredictable_data)*sizeof(float) + Huffman_encode_max_size(2*RegCoeffCapacity, RegCoeffNum2d*reg_count)
+		+ Huffman_encode_max_size(2*capacity, size.num_elements);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
@@ -411,8 +413,9 @@ sz_compress_3d(const T * data, size_t r1, size_t r2, size_t r3, double precision
 			: prediction_and_quantization_3d_with_border_prediction(data, size, mean_info, precision, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t est_size = 256 + unpredictable_count*sizeof(T) + size.num_blocks
+		+ (reg_unpredictable_data_pos - reg_unpredictable_data)*sizeof(float) + Huffman_encode_max_size(2*RegCoeffCapacity, RegCoeffNum3d*reg_count)
+		+ Huffman_encode_max_size(2*capacity, size.num_elements);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
@@ -542,8 +545,9 @@ sz_compress_3d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	size_t reg_count = prediction_and_quantization_3d_with_border_prediction_with_eb(data, precisions, size, mean_info, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t est_size = 256 + unpredictable_count*sizeof(T) + size.num_blocks
+		+ (reg_unpredictable_data_pos - reg_unpredictable_data)*sizeof(float) + Huffman_encode_max_size(2*RegCoeffCapacity, RegCoeffNum3d*reg_count)
+		+ Huffman_encode_max_size(2*capacity, size.num_elements);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
-- 
2.43.0


From 3a7b5a63da0472c80208585f70f987cc7ab4ae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:41 +0000
Subject: [PATCH 02/29] fix: reserve room for every value to be unpredictable

Only 5% of the values fitted in unpredictable_data; rough data or a tight
bound overflowed the heap.
---
 src/sz_compress_3d.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sz_compress_3d.cpp b/src/sz_compress_3d.cpp
index 31ee312..c2862ee 100644
--- a/src/sz_compress_3d.cpp
+++ b/src/sz_compress_3d.cpp
@@ -86,7 +86,7 @@ sz_compress_2d(const T * data, size_t r1, size_t r2, double precision, size_t& c
 	meanInfo<T> mean_info;// = optimize_quant_invl_2d(data, r1, r2, precision, capacity);
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
-	T * unpredictable_data = (T *) malloc((0.05*size.num_elements) * sizeof(T));
+	T * unpredictable_data = (T *) malloc(size.num_elements * sizeof(T));
 	unsigned char * indicator = (unsigned char *) malloc(size.num_blocks * sizeof(unsigned char));
 	T * unpredictable_data_pos = unpredictable_data;
 	int * reg_params_type = (int *) malloc(RegCoeffNum2d * size.num_blocks * sizeof(int));
@@ -403,7 +403,7 @@ sz_compress_3d(const T * data, size_t r1, size_t r2, size_t r3, double precision
 	meanInfo<T> mean_info = optimize_quant_invl_3d(data, r1, r2, r3, precision, capacity);
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
-	T * unpredictable_data = (T *) malloc((0.05*size.num_elements) * sizeof(T));
+	T * unpredictable_data = (T *) malloc(size.num_elements * sizeof(T));
 	unsigned char * indicator = (unsigned char *) malloc(size.num_blocks * sizeof(unsigned char));
 	T * unpredictable_data_pos = unpredictable_data;
 	int * reg_params_type = (int *) malloc(RegCoeffNum3d * size.num_blocks * sizeof(int));
@@ -536,7 +536,7 @@ sz_compress_3d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	meanInfo<T> mean_info;
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
-	T * unpredictable_data = (T *) malloc((0.05*size.num_elements) * sizeof(T));
+	T * unpredictable_data = (T *) malloc(size.num_elements * sizeof(T));
 	unsigned char * indicator = (unsigned char *) malloc(size.num_blocks * sizeof(unsigned char));
 	T * unpredictable_data_pos = unpredictable_data;
 	int * reg_params_type = (int *) malloc(RegCoeffNum3d * size.num_blocks * sizeof(int));
-- 
2.43.0


From d765ea10a1e52f61ed03cd5afb42d366ee9ca9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 03/29] fix: do not shift by 64 for a one-symbol Huffman
 alphabet

Also reserve the 8 header bytes and the slack of the 8-byte stores in encode_withTree.
---
 src/sz_huffman.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sz_huffman.cpp b/src/sz_huffman.cpp
index b828687..6a92f4b 100644
--- a/src/sz_huffman.cpp
+++ b/src/sz_huffman.cpp
@@ -155,7 +155,7 @@ void build_code(HuffmanTree *huffmanTree, node n, int len, unsigned long out1, u
 		huffmanTree->code[n->c] = (unsigned long*)malloc(2*sizeof(unsigned long));
 		if(len<=64)
 		{
-			(huffmanTree->code[n->c])[0] = out1 << (64 - len);
+			(huffmanTree->code[n->c])[0] = (len == 0) ? 0 : out1 << (64 - len);
 			(huffmanTree->code[n->c])[1] = out2;
 		}
 		else
@@ -660,7 +660,7 @@ void encode_withTree(HuffmanTree* huffmanTree, const int *s, size_t length, unsi
 	nodeCount = nodeCount*2-1;
 	unsigned int treeByteSize = convert_HuffTree_to_bytes_anyStates(huffmanTree,nodeCount, &treeBytes);
 
-	*out = (unsigned char*)malloc(length*sizeof(int)+treeByteSize);
+	*out = (unsigned char*)malloc(8+treeByteSize+length*sizeof(int)+16);
 	intToBytes_bigEndian(buffer, nodeCount);
 	memcpy(*out, buffer, 4);
 	intToBytes_bigEndian(buffer, huffmanTree->stateNum/2); //real number of intervals
-- 
2.43.0


From 45afef7b4d9dc3b8661ef4a38504a3d153159fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 04/29] fix: encode an empty symbol array instead of
 dereferencing a NULL root

3D fields whose values are all stored verbatim have no quantization code at all.
---
 src/sz_compression_utils.cpp   | 1 +
 src/sz_decompression_utils.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/sz_compression_utils.cpp b/src/sz_compression_utils.cpp
index 2fd36e5..72a934a 100644
--- a/src/sz_compression_utils.cpp
+++ b/src/sz_compression_utils.cpp
@@ -60,6 +60,7 @@ build_Huffman_tree(size_t state_num, const int * type, size_t num_elements){
 
 void
 Huffman_encode_tree_and_data(size_t state_num, const int * type, size_t num_elements, unsigned char*& compressed_pos){
+	if(num_elements == 0) return; // no symbol, no tree
 	HuffmanTree * huffman = build_Huffman_tree(state_num, type, num_elements);
 	size_t node_count = 0;
 	size_t i = 0;
diff --git a/src/sz_decompression_utils.cpp b/src/sz_decompression_utils.cpp
index 5637828..31ea9a3 100644
--- a/src/sz_decompression_utils.cpp
+++ b/src/sz_decompression_utils.cpp
@@ -91,6 +91,7 @@ convertByteArray2IntArray_fast_1b_sz(size_t intArrayLength, const unsigned char*
 // TODO: change compress_pos to const
 int *
 Huffman_decode_tree_and_data(size_t state_num, size_t num_elements, const unsigned char *& compressed_pos){
+	if(num_elements == 0) return NULL; // nothing was written for an empty array
 	HuffmanTree* huffman = createHuffmanTree(state_num);
 	size_t node_count = 0;
 	read_variable_from_src(compressed_pos, node_count);
-- 
2.43.0


From 23e64695b873ec897d235593d29e065919126524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:37 +0000
Subject: [PATCH 05/29] fix: size the critical-point codecs' buffers for
 incompressible fields

The fixed multiples of the raw size did not cover the header, the sign maps,
the two Huffman trees and a fully verbatim field, so rough or small fields
overflowed the heap.
---
 src/sz_compress_cp_preserve_2d.cpp          | 14 +++++++-------
 src/sz_compress_cp_preserve_2d_bilinear.cpp |  2 +-
 src/sz_compress_cp_preserve_3d.cpp          |  8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index 94100d3..dac4457 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -232,7 +232,7 @@ sz_compress_cp_preserve_2d_offline(const T * U, const T * V, size_t r1, size_t r
 	}
 	free(eb);
 	printf("quantize eb done\n");
-	unsigned char * compressed_eb = (unsigned char *) malloc(2*num_elements*sizeof(int));
+	unsigned char * compressed_eb = (unsigned char *) malloc(Huffman_encode_max_size(2*1024, 2*num_elements));
 	unsigned char * compressed_eb_pos = compressed_eb; 
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, 2*num_elements, compressed_eb_pos);
 	size_t compressed_eb_size = compressed_eb_pos - compressed_eb;
@@ -334,7 +334,7 @@ sz_compress_cp_preserve_2d_offline_log(const T * U, const T * V, size_t r1, size
 		// *(eb_quant_index_pos ++) = eb_linear_quantize(eb[i], 5e-3);
 	}
 	// printf("quantize eb done\n");
-	unsigned char * compressed_eb = (unsigned char *) malloc(num_elements*sizeof(int));
+	unsigned char * compressed_eb = (unsigned char *) malloc(Huffman_encode_max_size(2*1024, num_elements));
 	unsigned char * compressed_eb_pos = compressed_eb; 
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, num_elements, compressed_eb_pos);
 	size_t compressed_eb_size = compressed_eb_pos - compressed_eb;
@@ -696,7 +696,7 @@ sz_compress_cp_preserve_2d_online(const T * U, const T * V, size_t r1, size_t r2
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(64 + unpred_data.size()*sizeof(T) + Huffman_encode_max_size(2*1024, 2*num_elements) + Huffman_encode_max_size(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
@@ -961,7 +961,7 @@ sz_compress_cp_preserve_2d_online_log(const T * U, const T * V, size_t r1, size_
 	free(decompressed_U);
 	free(decompressed_V);
 	// printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(64 + 2*sign_map_size + unpred_data.size()*sizeof(T) + Huffman_encode_max_size(2*1024, num_elements) + Huffman_encode_max_size(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -1224,7 +1224,7 @@ sz_compress_cp_preserve_2d_online_abs(const T * U, const T * V, size_t r1, size_
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(64 + unpred_data.size()*sizeof(T) + Huffman_encode_max_size(2*1024, 2*num_elements) + Huffman_encode_max_size(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
@@ -1512,7 +1512,7 @@ sz_compress_cp_preserve_2d_online_abs_relax_FN(const T * U, const T * V, size_t
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(64 + unpred_data.size()*sizeof(T) + Huffman_encode_max_size(2*1024, 2*num_elements) + Huffman_encode_max_size(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
@@ -1795,7 +1795,7 @@ sz3_compress_cp_preserve_2d_online_abs(const T * U, const T * V, size_t r1, size
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q: %ld %ld\n", eb_quant_index_pos - eb_quant_index, quant_index);
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(64 + quantizer.size_est() + Huffman_encode_max_size(2*1024, num_elements) + Huffman_encode_max_size(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
diff --git a/src/sz_compress_cp_preserve_2d_bilinear.cpp b/src/sz_compress_cp_preserve_2d_bilinear.cpp
index 370e3a7..a9cbed0 100644
--- a/src/sz_compress_cp_preserve_2d_bilinear.cpp
+++ b/src/sz_compress_cp_preserve_2d_bilinear.cpp
@@ -1052,7 +1052,7 @@ sz_compress_cp_preserve_2d_bilinear_online_log(const T * U, const T * V, size_t
 	free(decompressed_U);
 	free(decompressed_V);
 	// printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(64 + 2*sign_map_size + unpred_data.size()*sizeof(T) + Huffman_encode_max_size(2*1024, num_elements) + Huffman_encode_max_size(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
diff --git a/src/sz_compress_cp_preserve_3d.cpp b/src/sz_compress_cp_preserve_3d.cpp
index 58ce2dd..a9632a5 100644
--- a/src/sz_compress_cp_preserve_3d.cpp
+++ b/src/sz_compress_cp_preserve_3d.cpp
@@ -546,7 +546,7 @@ sz_compress_cp_preserve_3d_offline_log(const T * U, const T * V, const T * W, si
 	free(decompressed_V);
 	free(decompressed_W);
 	// printf("offset eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, eb_zero_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(64 + 3*sign_map_size + eb_zero_data.size()*sizeof(T) + Huffman_encode_max_size(2*256, num_elements) + Huffman_encode_max_size(2*capacity, data_quant_index_pos - data_quant_index));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -933,7 +933,7 @@ sz_compress_cp_preserve_3d_online_log(const T * U, const T * V, const T * W, siz
 	free(decompressed_V);
 	free(decompressed_W);
 	printf("offset eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, eb_zero_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(64 + 3*sign_map_size + eb_zero_data.size()*sizeof(T) + Huffman_encode_max_size(2*256, num_elements) + Huffman_encode_max_size(2*capacity, data_quant_index_pos - data_quant_index));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -1115,7 +1115,7 @@ sz_compress_cp_preserve_3d_unstructured(int n, const T * points, const T * data,
 	free(dec_data);
 	free(log_data);
 	// printf("offset eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, eb_zero_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*n*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(64 + sign_map_size + eb_zero_data.size()*sizeof(T) + Huffman_encode_max_size(2*256, n) + Huffman_encode_max_size(2*capacity, data_quant_index_pos - data_quant_index));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -1452,7 +1452,7 @@ sz_compress_cp_preserve_3d_online_abs(const T * U, const T * V, const T * W, siz
 	free(decompressed_V);
 	free(decompressed_W);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(64 + unpred_data.size()*sizeof(T) + Huffman_encode_max_size(2*1024, num_elements) + Huffman_encode_max_size(2*capacity, data_quant_index_pos - data_quant_index));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
-- 
2.43.0


From bf95426db7240929ed4fa3e7ff39d636c209de8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:37 +0000
Subject: [PATCH 06/29] fix: count the stored threshold in the offline codec's
 size

The header writes base, threshold and three sizes but the buffer left out the
threshold, overflowing the heap by 8 bytes and truncating the reported size.
---
 src/sz_compress_cp_preserve_2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index dac4457..c2e48f0 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -243,7 +243,7 @@ sz_compress_cp_preserve_2d_offline(const T * U, const T * V, size_t r1, size_t r
 	printf("eb_size = %ld, u_size = %ld, v_size = %ld\n", compressed_eb_size, compressed_u_size, compressed_v_size);
 	free(eb_u);
 	free(eb_v);
-	compressed_size = sizeof(int) + sizeof(size_t) + compressed_eb_size + sizeof(size_t) + compressed_u_size + sizeof(size_t) + compressed_v_size;
+	compressed_size = sizeof(int) + sizeof(double) + sizeof(size_t) + compressed_eb_size + sizeof(size_t) + compressed_u_size + sizeof(size_t) + compressed_v_size;
 	unsigned char * compressed = (unsigned char *) malloc(compressed_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
-- 
2.43.0


From faba8efb5e4a6334f6940e53e068a6488888bb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:37 +0000
Subject: [PATCH 07/29] fix: quantize an error bound that gets index 0 to zero

Bounds between threshold and base*threshold got index 0 but kept a non-zero
value, while every decoder treats index 0 as 'stored verbatim', so the offline
codecs could quantize a value that the decoder read as verbatim.
---
 include/sz_cp_preserve_utils.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/sz_cp_preserve_utils.hpp b/include/sz_cp_preserve_utils.hpp
index 094d65f..8d0a403 100644
--- a/include/sz_cp_preserve_utils.hpp
+++ b/include/sz_cp_preserve_utils.hpp
@@ -17,6 +17,11 @@ inline int eb_exponential_quantize(double& eb, const int base, const double log_
 		return 0;
 	}
 	int id = log2(eb / threshold)/log_of_base;
+	if(id == 0){
+		// index 0 is decoded as a zero error bound
+		eb = 0;
+		return 0;
+	}
 	eb = pow(base, id) * threshold;
 	return id;
 }
-- 
2.43.0


From 39ff9495f8c1100ff049b969f87e5f432a5bfb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:30 +0000
Subject: [PATCH 08/29] fix: skip verbatim values by their own size when
 decompressing

sz_decompress_3d<double> advanced 4 bytes per 8-byte verbatim value and decoded
garbage whenever a double field had an unpredictable value.
---
 src/sz_decompress_3d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sz_decompress_3d.cpp b/src/sz_decompress_3d.cpp
index 6710b38..c9093f3 100644
--- a/src/sz_decompress_3d.cpp
+++ b/src/sz_decompress_3d.cpp
@@ -62,7 +62,7 @@ sz_decompress_2d(const unsigned char * compressed, size_t r1, size_t r2){
 	size_t unpredictable_count = 0;
 	read_variable_from_src(compressed_pos, unpredictable_count);
 	const T * unpredictable_data = (const T *) compressed_pos;
-	compressed_pos += unpredictable_count * sizeof(float);
+	compressed_pos += unpredictable_count * sizeof(T);
 	unsigned char * indicator = convertByteArray2IntArray_fast_1b_sz(size.num_blocks, compressed_pos, (size.num_blocks - 1)/8 + 1);
 	float * reg_params = NULL;
 	if(reg_count) reg_params = decode_regression_coefficients_2d(compressed_pos, reg_count, size.block_size, precision);
@@ -271,7 +271,7 @@ sz_decompress_3d(const unsigned char * compressed, size_t r1, size_t r2, size_t
 	size_t unpredictable_count = 0;
 	read_variable_from_src(compressed_pos, unpredictable_count);
 	const T * unpredictable_data = (const T *) compressed_pos;
-	compressed_pos += unpredictable_count * sizeof(float);
+	compressed_pos += unpredictable_count * sizeof(T);
 	unsigned char * indicator = convertByteArray2IntArray_fast_1b_sz(size.num_blocks, compressed_pos, (size.num_blocks - 1)/8 + 1);
 	float * reg_params = NULL;
 	if(reg_count) reg_params = decode_regression_coefficients(compressed_pos, reg_count, size.block_size, precision);
-- 
2.43.0


From e73b9d654050eddd185881f62da8163ab0e1aa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:30 +0000
Subject: [PATCH 09/29] fix: release the error-bound arrays of the offline and
 bilinear codecs

---
 src/sz_compress_cp_preserve_2d_bilinear.cpp | 2 +-
 src/sz_decompress_cp_preserve_2d.cpp        | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sz_compress_cp_preserve_2d_bilinear.cpp b/src/sz_compress_cp_preserve_2d_bilinear.cpp
index a9cbed0..68184a5 100644
--- a/src/sz_compress_cp_preserve_2d_bilinear.cpp
+++ b/src/sz_compress_cp_preserve_2d_bilinear.cpp
@@ -1046,7 +1046,7 @@ sz_compress_cp_preserve_2d_bilinear_online_log(const T * U, const T * V, size_t
 	}
     // printf("#Failed verification = %d\n", failed_verification);
 	// writefile("eb_2d.dat", eb, num_elements);
-	// free(eb);
+	free(eb);
 	free(log_U);
 	free(log_V);
 	free(decompressed_U);
diff --git a/src/sz_decompress_cp_preserve_2d.cpp b/src/sz_decompress_cp_preserve_2d.cpp
index 775ced3..e156c81 100644
--- a/src/sz_decompress_cp_preserve_2d.cpp
+++ b/src/sz_decompress_cp_preserve_2d.cpp
@@ -40,6 +40,7 @@ sz_decompress_cp_preserve_2d_offline(const unsigned char * compressed, size_t r1
 		// else eb[i] = type[num_elements + i] * 1e-2;
 	}
 	V = sz_decompress_2d_with_eb<T>(compressed_pos, eb, r1, r2);
+	free(type);
 	free(eb);
 }
 
@@ -95,6 +96,7 @@ sz_decompress_cp_preserve_2d_offline_log(const unsigned char * compressed, size_
 	}
 	free(sign_map_u);
 	free(sign_map_v);
+	free(type);
 	free(eb);
 }
 
-- 
2.43.0


From 771e40a3a3ec6caea51d3356b46ea7e839ec471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:30 +0000
Subject: [PATCH 10/29] fix: keep uninitialised padding out of the compressed
 stream

meanInfo was written as a whole struct, padding included, so compressing the
same field twice could give different bytes and leaked stack contents.
---
 src/sz_compress_3d.cpp   | 12 ++++++++----
 src/sz_decompress_3d.cpp |  9 ++++++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/sz_compress_3d.cpp b/src/sz_compress_3d.cpp
index c2862ee..b41907f 100644
--- a/src/sz_compress_3d.cpp
+++ b/src/sz_compress_3d.cpp
@@ -104,7 +104,8 @@ sz_compress_2d(const T * data, size_t r1, size_t r2, double precision, size_t& c
 	write_variable_to_dst(compressed_pos, precision);
 	write_variable_to_dst(compressed_pos, (char) block_independant);
 	write_variable_to_dst(compressed_pos, intv_radius);
-	write_variable_to_dst(compressed_pos, mean_info);
+	write_variable_to_dst(compressed_pos, mean_info.use_mean);
+	write_variable_to_dst(compressed_pos, mean_info.mean);
 	write_variable_to_dst(compressed_pos, reg_count);
 	write_variable_to_dst(compressed_pos, unpredictable_count);
 	write_array_to_dst(compressed_pos, unpredictable_data, unpredictable_count);
@@ -221,7 +222,8 @@ sz_compress_2d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	write_variable_to_dst(compressed_pos, size.block_size);
 	write_variable_to_dst(compressed_pos, (char) block_independant);
 	write_variable_to_dst(compressed_pos, intv_radius);
-	write_variable_to_dst(compressed_pos, mean_info);
+	write_variable_to_dst(compressed_pos, mean_info.use_mean);
+	write_variable_to_dst(compressed_pos, mean_info.mean);
 	write_variable_to_dst(compressed_pos, reg_count);
 	write_variable_to_dst(compressed_pos, unpredictable_count);
 	write_array_to_dst(compressed_pos, unpredictable_data, unpredictable_count);
@@ -422,7 +424,8 @@ sz_compress_3d(const T * data, size_t r1, size_t r2, size_t r3, double precision
 	write_variable_to_dst(compressed_pos, precision);
 	write_variable_to_dst(compressed_pos, (char) block_independant);
 	write_variable_to_dst(compressed_pos, intv_radius);
-	write_variable_to_dst(compressed_pos, mean_info);
+	write_variable_to_dst(compressed_pos, mean_info.use_mean);
+	write_variable_to_dst(compressed_pos, mean_info.mean);
 	write_variable_to_dst(compressed_pos, reg_count);
 	write_variable_to_dst(compressed_pos, unpredictable_count);
 	write_array_to_dst(compressed_pos, unpredictable_data, unpredictable_count);
@@ -554,7 +557,8 @@ sz_compress_3d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	// write_variable_to_dst(compressed_pos, precision);
 	write_variable_to_dst(compressed_pos, (char) block_independant);
 	write_variable_to_dst(compressed_pos, intv_radius);
-	write_variable_to_dst(compressed_pos, mean_info);
+	write_variable_to_dst(compressed_pos, mean_info.use_mean);
+	write_variable_to_dst(compressed_pos, mean_info.mean);
 	write_variable_to_dst(compressed_pos, reg_count);
 	write_variable_to_dst(compressed_pos, unpredictable_count);
 	write_array_to_dst(compressed_pos, unpredictable_data, unpredictable_count);
diff --git a/src/sz_decompress_3d.cpp b/src/sz_decompress_3d.cpp
index c9093f3..b02cfe9 100644
--- a/src/sz_decompress_3d.cpp
+++ b/src/sz_decompress_3d.cpp
@@ -56,7 +56,8 @@ sz_decompress_2d(const unsigned char * compressed, size_t r1, size_t r2){
 	int intv_radius = 0;
 	read_variable_from_src(compressed_pos, intv_radius);
 	meanInfo<T> mean_info;
-	read_variable_from_src(compressed_pos, mean_info);
+	read_variable_from_src(compressed_pos, mean_info.use_mean);
+	read_variable_from_src(compressed_pos, mean_info.mean);
 	size_t reg_count = 0;
 	read_variable_from_src(compressed_pos, reg_count);
 	size_t unpredictable_count = 0;
@@ -133,7 +134,8 @@ sz_decompress_2d_with_eb(const unsigned char * compressed, const double * precis
 	int intv_radius = 0;
 	read_variable_from_src(compressed_pos, intv_radius);
 	meanInfo<T> mean_info;
-	read_variable_from_src(compressed_pos, mean_info);
+	read_variable_from_src(compressed_pos, mean_info.use_mean);
+	read_variable_from_src(compressed_pos, mean_info.mean);
 	size_t reg_count = 0;
 	read_variable_from_src(compressed_pos, reg_count);
 	size_t unpredictable_count = 0;
@@ -265,7 +267,8 @@ sz_decompress_3d(const unsigned char * compressed, size_t r1, size_t r2, size_t
 	int intv_radius = 0;
 	read_variable_from_src(compressed_pos, intv_radius);
 	meanInfo<T> mean_info;
-	read_variable_from_src(compressed_pos, mean_info);
+	read_variable_from_src(compressed_pos, mean_info.use_mean);
+	read_variable_from_src(compressed_pos, mean_info.mean);
 	size_t reg_count = 0;
 	read_variable_from_src(compressed_pos, reg_count);
 	size_t unpredictable_count = 0;
-- 
2.43.0


From 9f8a2293ffdb540b2504b1db6e8f40c9d975e6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:30 +0000
Subject: [PATCH 11/29] fix: make the 3D sampling terminate on tiny fields and
 clamp its index

With a sampling distance below 3 the skew corrections undid the step and the
loop never ended; a tiny bound overflowed the frequency index.
---
 include/sz_optimize_quant_intervals.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/sz_optimize_quant_intervals.hpp b/include/sz_optimize_quant_intervals.hpp
index 896ec65..bf20905 100644
--- a/include/sz_optimize_quant_intervals.hpp
+++ b/include/sz_optimize_quant_intervals.hpp
@@ -44,6 +44,8 @@ sample_rough_mean_3d(const T * data, size_t r1, size_t r2, size_t r3, size_t sam
 	size_t offset_count = 0;
 	size_t offset_count_2 = 0;
 	size_t mean_count = 0;
+	// a step of at least 3 outweighs the two skew corrections below
+	if(sample_distance < 3) sample_distance = 3;
 	while(data_pos - data < len){
 		mean += *data_pos;
 		mean_count ++;
@@ -95,8 +97,9 @@ optimize_quant_invl_3d(const T * data, size_t r1, size_t r2, size_t r3, double p
 		intervals[pred_index]++;
 
 		mean_diff = *data_pos - mean_rough;
-		if(mean_diff > 0) freq_index = (ptrdiff_t)(mean_diff/precision) + radius;
-		else freq_index = (ptrdiff_t)(mean_diff/precision) - 1 + radius;
+		mean_diff = MAX(-2.0*radius, MIN(mean_diff/precision, 2.0*radius));
+		if(mean_diff > 0) freq_index = (ptrdiff_t)(mean_diff) + radius;
+		else freq_index = (ptrdiff_t)(mean_diff) - 1 + radius;
 		if(freq_index <= 0){
 			freq_intervals[0] ++;
 		}
-- 
2.43.0


From a05766195f9512e4c295e4775bfa380490802873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:12 +0000
Subject: [PATCH 12/29] fix: clamp the quantization code before converting it
 to int

A difference of 2^31 error bounds or more overflowed the conversion and the
resulting negative code was shifted left.
---
 include/sz3_utils.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/sz3_utils.hpp b/include/sz3_utils.hpp
index e06288a..14995fc 100644
--- a/include/sz3_utils.hpp
+++ b/include/sz3_utils.hpp
@@ -1,6 +1,8 @@
 #ifndef _sz3_utils_hpp
 #define _sz3_utils_hpp
 
+#include <algorithm>
+
 template<class T, class T_eb>
 class VariableEBLinearQuantizer{
 public:
@@ -12,7 +14,7 @@ public:
     int quantize(T data, T pred, T_eb eb) {
         if(eb == 0) return 0;
         T diff = data - pred;
-        int quant_index = (int) (fabs(diff) / eb) + 1;
+        int quant_index = (int) std::min<double>(fabs(diff) / eb, this->radius * 2) + 1;
         if (quant_index < this->radius * 2) {
             quant_index >>= 1;
             int half_index = quant_index;
@@ -45,7 +47,7 @@ public:
         //     std::cout << data << " " << pred << " " << eb << std::endl;
         // }
         T diff = data - pred;
-        int quant_index = (int) (fabs(diff) / eb) + 1;
+        int quant_index = (int) std::min<double>(fabs(diff) / eb, this->radius * 2) + 1;
         if (quant_index < this->radius * 2) {
             quant_index >>= 1;
             int half_index = quant_index;
@@ -81,7 +83,7 @@ public:
             return 0;
         }
         T diff = ori - pred;
-        int quant_index = (int) (fabs(diff) / eb) + 1;
+        int quant_index = (int) std::min<double>(fabs(diff) / eb, this->radius * 2) + 1;
         if (quant_index < this->radius * 2) {
             quant_index >>= 1;
             int half_index = quant_index;
-- 
2.43.0


From d2ba20ebcb7458863f3b8aeef85f7c6ba27e3e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:27 +0000
Subject: [PATCH 13/29] fix: do not abort on decompressing a one- or two-vertex
 field

The placeholder for the remaining stream length was below the quantizer header
the loader asserts on.
---
 src/sz_decompress_cp_preserve_2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sz_decompress_cp_preserve_2d.cpp b/src/sz_decompress_cp_preserve_2d.cpp
index e156c81..de25dfc 100644
--- a/src/sz_decompress_cp_preserve_2d.cpp
+++ b/src/sz_decompress_cp_preserve_2d.cpp
@@ -335,7 +335,7 @@ sz3_decompress_cp_preserve_2d_online(const unsigned char * compressed, size_t r1
 	read_variable_from_src(compressed_pos, capacity);
 	int interpolation_level = (uint) ceil(log2(max(r1, r2)));
 	auto quantizer = VariableEBLinearQuantizer<T, T>(capacity>>1);
-	size_t remaining_length = num_elements*sizeof(T);//placeholder
+	size_t remaining_length = 64 + 2*num_elements*sizeof(T);//placeholder
 	quantizer.load(compressed_pos, remaining_length);
 
 	int * eb_quant_index = Huffman_decode_tree_and_data(2*1024, num_elements, compressed_pos);
-- 
2.43.0


From 22d4732957b7ce294f3e572a45f418baac686f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:27 +0000
Subject: [PATCH 14/29] fix: keep zeros and small values apart in the
 point-wise relative codec

For bounds near the precision of the logarithm the code of zero was not below
the decoder's threshold (or the threshold was above small values), so zeros
decoded to values and values to zero; an all-zero field gave infinities.
---
 src/sz_compress_pwr.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sz_compress_pwr.cpp b/src/sz_compress_pwr.cpp
index 4365e11..966b9b1 100644
--- a/src/sz_compress_pwr.cpp
+++ b/src/sz_compress_pwr.cpp
@@ -21,7 +21,8 @@ sz_compress_2d_pwr(const T * data, size_t r1, size_t r2, double precision, size_
 		max_data = MAX(max_data, data[i]);
 	}
 	T max_abs_log_data = 0;
-    if(min_data == 0) max_abs_log_data = fabs(log2(fabs(max_data)));
+    if(min_data == 0 && max_data == 0) max_abs_log_data = 0;
+    else if(min_data == 0) max_abs_log_data = fabs(log2(fabs(max_data)));
     else if(max_data == 0) max_abs_log_data = fabs(log2(fabs(min_data)));
     else max_abs_log_data = fabs(log2(fabs(min_data))) > fabs(log2(fabs(max_data))) ? fabs(log2(fabs(min_data))) : fabs(log2(fabs(max_data)));
     T min_log_data = max_abs_log_data;
@@ -40,16 +41,19 @@ sz_compress_2d_pwr(const T * data, size_t r1, size_t r2, double precision, size_
 	}
 	if(fabs(min_log_data) > max_abs_log_data) max_abs_log_data = fabs(min_log_data);
 	double log_precision = log2(1.0 + precision) - max_abs_log_data * std::numeric_limits<T>::epsilon();
+	if(log_precision < 0) log_precision = 0;
+	// distance between the smallest value and the code of zero, which must survive the rounding to T
+	double zero_gap = log_precision + 4 * max_abs_log_data * std::numeric_limits<T>::epsilon();
 	for(size_t i=0; i<num_elements; i++){
 		if(data[i] == 0){
-			log_data[i] = min_log_data - 2.0001*log_precision;
+			log_data[i] = min_log_data - 2.0001*zero_gap;
 		}
 	}
 	size_t log_compressed_size = 0;
 	unsigned char * log_compressed = sz_compress_2d(log_data, r1, r2, log_precision, log_compressed_size, BSIZE, block_independant);
     free(log_data);
 	size_t sign_size = (num_elements-1)/8 + 1;
-	T threshold = min_log_data - 1.0001*log_precision;
+	T threshold = min_log_data - 1.0001*zero_gap;
 	compressed_size = sizeof(T) + sign_size + log_compressed_size;
     unsigned char * final_compressed = (unsigned char *) malloc(compressed_size);
     unsigned char * final_compressed_pos = final_compressed;
-- 
2.43.0


From 1e9049a6dbb018d90109ff6727984a84f8054377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:27 +0000
Subject: [PATCH 15/29] fix: never decode a value as zero in the point-wise
 codec with bounds

The threshold could equal the logarithm of the smallest value, or be minus
infinity when the first value is zero; the rounding allowance had the wrong
sign for magnitudes below one.
---
 src/sz_compress_pwr.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sz_compress_pwr.cpp b/src/sz_compress_pwr.cpp
index 966b9b1..24dabe6 100644
--- a/src/sz_compress_pwr.cpp
+++ b/src/sz_compress_pwr.cpp
@@ -86,7 +86,7 @@ sz_compress_2d_pwr_with_eb(const T * data, const double * ebs, double **final_lo
 	memset(signs, 0, num_elements);
 	// preprocess
     double * log_ebs = (double *) malloc(num_elements * sizeof(double));
-    T threshold = log2(fabs(data[0]));
+    T threshold = 0;
 	for(size_t i=0; i<num_elements; i++){
 		if(data[i] < 0){
 			signs[i] = 1;
@@ -96,11 +96,13 @@ sz_compress_2d_pwr_with_eb(const T * data, const double * ebs, double **final_lo
 			log_data[i] = data[i];
 		if(log_data[i] > 0){
 			log_data[i] = log2(log_data[i]);
-			log_ebs[i] = log2(1.0 + ebs[i]) - log_data[i] * std::numeric_limits<T>::epsilon();
+			log_ebs[i] = log2(1.0 + ebs[i]) - fabs(log_data[i]) * std::numeric_limits<T>::epsilon();
 			log_ebs[i] = MAX(log_ebs[i], 0);
 			threshold = MIN(threshold, log_data[i] - 1.0001 * log_ebs[i]);
 		}
 	}
+	// strictly below every logarithm, which may be stored verbatim
+	threshold -= 1;
 	for(size_t i=0; i<num_elements; i++){
 		if(data[i] == 0){
 			log_data[i] = threshold;
-- 
2.43.0


From 2179aefa8044b2f6f438a4188722f45b1b54082a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:42 +0000
Subject: [PATCH 16/29] fix: enforce the error bound in the relaxed
 critical-point codec

The quantized value was never compared with the original, so float rounding
of large values exceeded the requested bound.
---
 src/sz_compress_cp_preserve_2d.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index c2e48f0..ce7b587 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -1441,12 +1441,17 @@ sz_compress_cp_preserve_2d_online_abs_relax_FN(const T * U, const T * V, size_t
 					T d2 = (j) ? cur_data_pos[-1] : 0;
 					T pred = d1 + d2 - d0;
 					T diff = cur_data - pred;
-					T quant_diff = std::abs(diff) / abs_eb + 1;
+					double quant_diff = std::abs(diff) / abs_eb + 1;
 					if(quant_diff < capacity){
 						quant_diff = (diff > 0) ? quant_diff : -quant_diff;
 						int quant_index = (int)(quant_diff/2) + intv_radius;
 						data_quant_index_pos[k] = quant_index;
 						decompressed[k] = pred + 2 * (quant_index - intv_radius) * abs_eb; 
+						// the rounding of the sum may break the bound
+						if(std::abs(decompressed[k] - cur_data) > abs_eb){
+							unpred_flag = true;
+							break;
+						}
 					}
 					else{
 						unpred_flag = true;
-- 
2.43.0


From ca3e686bbc1864087076d32352f7755c61f1d87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:42 +0000
Subject: [PATCH 17/29] fix: take the logarithm of double fields in double
 precision

log2f truncated double data to float before quantization, so double fields
lost their relative bound below about 1e-6 and values beyond the range of
float became infinite.
---
 include/sz_cp_preserve_utils.hpp     | 2 +-
 src/sz_decompress_cp_preserve_2d.cpp | 4 ++--
 src/sz_decompress_cp_preserve_3d.cpp | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/sz_cp_preserve_utils.hpp b/include/sz_cp_preserve_utils.hpp
index 8d0a403..26cc061 100644
--- a/include/sz_cp_preserve_utils.hpp
+++ b/include/sz_cp_preserve_utils.hpp
@@ -143,7 +143,7 @@ log_transform(const T * data, unsigned char * sign, size_t n, bool verbose=false
 		sign[i] = 0;
 		if(data[i] != 0){
 			sign[i] = (data[i] > 0);
-			log_data[i] = (data[i] > 0) ? log2f(data[i]) : log2f(-data[i]); 
+			log_data[i] = (data[i] > 0) ? std::log2(data[i]) : std::log2(-data[i]); 
 		}
 		else{
 			sign[i] = 0;
diff --git a/src/sz_decompress_cp_preserve_2d.cpp b/src/sz_decompress_cp_preserve_2d.cpp
index de25dfc..7f90f31 100644
--- a/src/sz_decompress_cp_preserve_2d.cpp
+++ b/src/sz_decompress_cp_preserve_2d.cpp
@@ -212,8 +212,8 @@ sz_decompress_cp_preserve_2d_online_log(const unsigned char * compressed, size_t
 				unpred_data_indices.insert(i*r2 + j);
 				T data_U = *(unpred_data_pos ++);
 				T data_V = *(unpred_data_pos ++);
-				*U_pos = (data_U == 0) ? -100 : log2f(fabs(data_U));
-				*V_pos = (data_V == 0) ? -100 : log2f(fabs(data_V));
+				*U_pos = (data_U == 0) ? -100 : std::log2(std::fabs(data_U));
+				*V_pos = (data_V == 0) ? -100 : std::log2(std::fabs(data_V));
 				eb_quant_index_pos ++;
 			}
 			else{
diff --git a/src/sz_decompress_cp_preserve_3d.cpp b/src/sz_decompress_cp_preserve_3d.cpp
index 617b92f..22bd9d2 100644
--- a/src/sz_decompress_cp_preserve_3d.cpp
+++ b/src/sz_decompress_cp_preserve_3d.cpp
@@ -58,7 +58,7 @@ sz_decompress_cp_preserve_3d_online_log(const unsigned char * compressed, size_t
 					unpred_data_indices.insert(index);
 					for(int p=0; p<3; p++){
 						T cur_data = *(eb_zero_data_pos ++);
-						*(data_pos[p]) = (cur_data == 0) ? -100 : log2f(fabs(cur_data));
+						*(data_pos[p]) = (cur_data == 0) ? -100 : std::log2(std::fabs(cur_data));
 					}
 					eb_quant_index_pos ++;
 				}
@@ -157,7 +157,7 @@ sz_decompress_cp_preserve_3d_unstructured(const unsigned char * compressed, int
 			unpred_data_indices.insert(i);
 			for(int p=0; p<3; p++){
 				T cur_data = *(eb_zero_data_pos ++);
-				data_pos[p] = (cur_data == 0) ? -100 : log2f(fabs(cur_data));
+				data_pos[p] = (cur_data == 0) ? -100 : std::log2(std::fabs(cur_data));
 			}
 			eb_quant_index_pos ++;
 		}
-- 
2.43.0


From 2258fb3efbe34f6b0016f5f8f3cea4eb26f35faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:20 +0000
Subject: [PATCH 18/29] fix: keep NaN and infinity out of the derived error
 bounds

0/0 for constant or vanishing neighbours and overflowing products gave a NaN
bound. MIN then dropped it together with the user's bound, so the error could
be many orders of magnitude above the requested one.
---
 src/sz_compress_cp_preserve_2d.cpp          | 13 ++++++++++---
 src/sz_compress_cp_preserve_2d_bilinear.cpp |  4 +++-
 src/sz_compress_cp_preserve_3d.cpp          |  8 ++++++--
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index ce7b587..d4f4f6b 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -392,7 +392,9 @@ template<typename T>
 inline double max_eb_to_keep_sign_2d_online(const T A, const T B, const T C=0){
 	double fabs_sum = (fabs(A) + fabs(B));
 	if(fabs_sum == 0) return 0;
-	return fabs(A + B + C) / fabs_sum;
+	double eb = fabs(A + B + C) / fabs_sum;
+	// nothing can be derived from products that overflowed
+	return std::isfinite(eb) ? eb : 0;
 }
 
 // W0 + W1 = u1v2 - u2v1 + u2v0 - u0v2
@@ -457,7 +459,8 @@ inline double max_eb_to_keep_type_online(const T u0, const T u1, const T u2, con
 			// 	printf("impossible as a*c is always less than 0\n");
 			// 	exit(0);
 			// }
-			eb = MINF(eb, (-b + sqrt(b*b - 4*a*c))/(2*a));
+			// (-b + sqrt(b*b - 4*a*c))/(2*a), without dividing by a, which may be 0
+			eb = MINF(eb, -2*c/(b + sqrt(b*b - 4*a*c)));
 
 			// check four corners
 			// double e1[2] = {-1, 1};
@@ -724,7 +727,11 @@ sz_compress_cp_preserve_2d_online(const double * U, const double * V, size_t r1,
 // maximal absolute error bound to keep the sign of A*e_1 + B*e_2 + C
 template<typename T>
 inline double max_eb_to_keep_sign_2d_online_abs(const T A, const T B, const T C=0){
-	return fabs(C) / (fabs(A) + fabs(B));
+	double fabs_sum = (fabs(A) + fabs(B));
+	if(fabs_sum == 0) return (C == 0) ? 0 : std::numeric_limits<double>::max();
+	double eb = fabs(C) / fabs_sum;
+	// nothing can be derived from products that overflowed
+	return std::isfinite(eb) ? eb : 0;
 }
 /*
 triangle mesh x0, x1, x2, derive absolute cp-preserving eb for x2 given x0, x1
diff --git a/src/sz_compress_cp_preserve_2d_bilinear.cpp b/src/sz_compress_cp_preserve_2d_bilinear.cpp
index 68184a5..33018b5 100644
--- a/src/sz_compress_cp_preserve_2d_bilinear.cpp
+++ b/src/sz_compress_cp_preserve_2d_bilinear.cpp
@@ -11,7 +11,9 @@ template<typename T>
 static inline double max_eb_to_keep_sign_2d_online(const T A, const T B, const T C=0){
 	double fabs_sum = (fabs(A) + fabs(B));
 	if(fabs_sum == 0) return 0;
-	return fabs(A + B + C) / fabs_sum;
+	double eb = fabs(A + B + C) / fabs_sum;
+	// nothing can be derived from products that overflowed
+	return std::isfinite(eb) ? eb : 0;
 }
 
 // maximal error bound to keep the sign of 
diff --git a/src/sz_compress_cp_preserve_3d.cpp b/src/sz_compress_cp_preserve_3d.cpp
index a9632a5..8150f2b 100644
--- a/src/sz_compress_cp_preserve_3d.cpp
+++ b/src/sz_compress_cp_preserve_3d.cpp
@@ -598,7 +598,9 @@ typedef struct conditions_3d{
 template<typename T>
 inline double max_eb_to_keep_sign_3d_online(const T A, const T B, const T C, const T D=0){
 	if((A == 0) && (B == 0) && (C == 0)) return 1;
-	return fabs(A + B + C + D) / (fabs(A) + fabs(B) + fabs(C));
+	double eb = fabs(A + B + C + D) / (fabs(A) + fabs(B) + fabs(C));
+	// nothing can be derived from products that overflowed
+	return std::isfinite(eb) ? eb : 0;
 }
 
 // template<typename T>
@@ -1159,7 +1161,9 @@ inline double max_eb_to_keep_sign_3d_online_abs(const T A, const T B, const T C,
 		if(D == 0) return 0;
 		return 1e9;
 	}
-	return fabs(D) / (fabs(A) + fabs(B) + fabs(C));
+	double eb = fabs(D) / (fabs(A) + fabs(B) + fabs(C));
+	// nothing can be derived from products that overflowed
+	return std::isfinite(eb) ? eb : 0;
 }
 
 template<typename T>
-- 
2.43.0


From 40e442414faa882df0560436771cf4503cf1aae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:37 +0000
Subject: [PATCH 19/29] fix: advance the sign map past zeros when decoding
 unstructured fields

Every component after the first decoded zero got the sign of its predecessor.
---
 src/sz_decompress_cp_preserve_3d.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sz_decompress_cp_preserve_3d.cpp b/src/sz_decompress_cp_preserve_3d.cpp
index 22bd9d2..39d72eb 100644
--- a/src/sz_decompress_cp_preserve_3d.cpp
+++ b/src/sz_decompress_cp_preserve_3d.cpp
@@ -186,7 +186,8 @@ sz_decompress_cp_preserve_3d_unstructured(const unsigned char * compressed, int
 		else{
 			for(int p=0; p<3; p++){
 				if(data[3*i + p] < -99) data[3*i + p] = 0;
-				else data[3*i + p] = *(sign_pos ++) ? exp2(data[3*i + p]) : -exp2(data[3*i + p]);
+				else data[3*i + p] = *sign_pos ? exp2(data[3*i + p]) : -exp2(data[3*i + p]);
+				sign_pos ++;
 			}
 		}
 	}
-- 
2.43.0


From c97eb2e3914f209cc47cf887fa53634ef85a7826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 20/29] fix: keep large error bounds apart from the 'stored
 verbatim' marker in 3D

Relative bounds of 3 and more quantize to the index that marks verbatim data
(structured grids), or that the decoder alone took for it (unstructured).
---
 src/sz_compress_cp_preserve_3d.cpp   | 10 ++++++++++
 src/sz_decompress_cp_preserve_3d.cpp |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sz_compress_cp_preserve_3d.cpp b/src/sz_compress_cp_preserve_3d.cpp
index 8150f2b..86a85ec 100644
--- a/src/sz_compress_cp_preserve_3d.cpp
+++ b/src/sz_compress_cp_preserve_3d.cpp
@@ -467,6 +467,11 @@ sz_compress_cp_preserve_3d_offline_log(const T * U, const T * V, const T * W, si
 					T decompressed[3];
 					double abs_eb = log2(1 + required_eb);
 					*eb_quant_index_pos = eb_exponential_quantize(abs_eb, base, log_of_base, threshold);
+					// eb_quant_index_max marks data that is stored verbatim
+					if(*eb_quant_index_pos >= eb_quant_index_max){
+						*eb_quant_index_pos = eb_quant_index_max - 1;
+						abs_eb = pow(base, *eb_quant_index_pos) * threshold;
+					}
 					if(*eb_quant_index_pos > 0){
 						// compress vector fields
 						T * log_data_pos[3] = {cur_log_U_pos, cur_log_V_pos, cur_log_W_pos};
@@ -844,6 +849,11 @@ sz_compress_cp_preserve_3d_online_log(const T * U, const T * V, const T * W, siz
 					T decompressed[3];
 					double abs_eb = log2(1 + required_eb);
 					*eb_quant_index_pos = eb_exponential_quantize(abs_eb, base, log_of_base, threshold);
+					// eb_quant_index_max marks data that is stored verbatim
+					if(*eb_quant_index_pos >= eb_quant_index_max){
+						*eb_quant_index_pos = eb_quant_index_max - 1;
+						abs_eb = pow(base, *eb_quant_index_pos) * threshold;
+					}
 					if(*eb_quant_index_pos > 0){
 						// compress vector fields
 						T * log_data_pos[3] = {cur_log_U_pos, cur_log_V_pos, cur_log_W_pos};
diff --git a/src/sz_decompress_cp_preserve_3d.cpp b/src/sz_decompress_cp_preserve_3d.cpp
index 39d72eb..4c24369 100644
--- a/src/sz_decompress_cp_preserve_3d.cpp
+++ b/src/sz_decompress_cp_preserve_3d.cpp
@@ -153,7 +153,7 @@ sz_decompress_cp_preserve_3d_unstructured(const unsigned char * compressed, int
 	for(int i=0; i<n; i++){
 		// printf("%ld %ld %ld\n", i, j, k);
 		// get eb
-		if(*eb_quant_index_pos == 0 || *eb_quant_index_pos == eb_quant_index_max){
+		if(*eb_quant_index_pos == 0){
 			unpred_data_indices.insert(i);
 			for(int p=0; p<3; p++){
 				T cur_data = *(eb_zero_data_pos ++);
-- 
2.43.0


From 18bb6a09eeebbf8ae36b88cee4ed7b364feac56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:51 +0000
Subject: [PATCH 21/29] fix: verify critical points in double precision

The relaxed codec let new critical points through in float fields with
vectors of very different magnitude in one cell.
---
 src/sz_compress_cp_preserve_2d.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index d4f4f6b..1827426 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -1298,8 +1298,10 @@ inverse_lerp_s2v2__(const T V[3][2], T mu[3])
 template<typename T>
 static int 
 check_cp(T v[3][2]){
-  T mu[3]; // check intersection
-  bool succ2 = inverse_lerp_s2v2__(v, mu);
+  // differences of float vectors of different magnitude lose the small one
+  const double vd[3][2] = {{v[0][0], v[0][1]}, {v[1][0], v[1][1]}, {v[2][0], v[2][1]}};
+  double mu[3]; // check intersection
+  bool succ2 = inverse_lerp_s2v2__(vd, mu);
   if (!succ2) return -1;
 	return 1;
 }
-- 
2.43.0


From 1b060ede7eb8ee9a596e5161d4db7e9dd82134f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:22 +0000
Subject: [PATCH 22/29] fix: decompress the head of lossless streams longer
 than 65536 bytes

---
 src/sz_lossless.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/sz_lossless.cpp b/src/sz_lossless.cpp
index 072c0e3..0114ade 100644
--- a/src/sz_lossless.cpp
+++ b/src/sz_lossless.cpp
@@ -52,7 +52,19 @@ unsigned long sz_lossless_decompress65536bytes(int losslessCompressor, unsigned
 	case ZSTD_COMPRESSOR:
 		*oriData = (unsigned char*)malloc(65536);
 		memset(*oriData, 0, 65536);
-		ZSTD_decompress(*oriData, 65536, compressBytes, cmpSize);	//the first 32768 bytes should be exact the same.
+		{
+			// stream: a one-shot ZSTD_decompress fails when the content is larger than 65536 bytes
+			ZSTD_DStream * stream = ZSTD_createDStream();
+			ZSTD_initDStream(stream);
+			ZSTD_inBuffer in = {compressBytes, cmpSize, 0};
+			ZSTD_outBuffer out = {*oriData, 65536, 0};
+			while(out.pos < out.size){
+				size_t in_pos = in.pos, out_pos = out.pos;
+				size_t ret = ZSTD_decompressStream(stream, &out, &in);
+				if(ret == 0 || ZSTD_isError(ret) || (in.pos == in_pos && out.pos == out_pos)) break;
+			}
+			ZSTD_freeDStream(stream);
+		}
 		outSize = 65536;
 		break;
 	default:
-- 
2.43.0


From a29b6742ba17b4c709baf411418dd059a28d364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:22 +0000
Subject: [PATCH 23/29] fix: quantize undefined and overflowing error bounds to
 valid indices

---
 include/sz_cp_preserve_utils.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sz_cp_preserve_utils.hpp b/include/sz_cp_preserve_utils.hpp
index 26cc061..19650f0 100644
--- a/include/sz_cp_preserve_utils.hpp
+++ b/include/sz_cp_preserve_utils.hpp
@@ -12,10 +12,12 @@ template<typename T>
 using unpred_vec = std::vector<T>;
 
 inline int eb_exponential_quantize(double& eb, const int base, const double log_of_base, const double threshold=std::numeric_limits<float>::epsilon()){
-	if(eb <= threshold){
+	if(!(eb > threshold)){
+		// also when the error bound is undefined (NaN)
 		eb = 0;
 		return 0;
 	}
+	if(!(eb / threshold <= std::numeric_limits<double>::max())) eb = std::numeric_limits<double>::max() * threshold;
 	int id = log2(eb / threshold)/log_of_base;
 	if(id == 0){
 		// index 0 is decoded as a zero error bound
-- 
2.43.0


From 7b7fd70b6327897bf62f7e36cac6c86bd25efadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:22 +0000
Subject: [PATCH 24/29] fix: store a value verbatim when its prediction is
 undefined in the SZ3 quantizer

---
 include/sz3_utils.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/sz3_utils.hpp b/include/sz3_utils.hpp
index 14995fc..ffa14b7 100644
--- a/include/sz3_utils.hpp
+++ b/include/sz3_utils.hpp
@@ -14,7 +14,7 @@ public:
     int quantize(T data, T pred, T_eb eb) {
         if(eb == 0) return 0;
         T diff = data - pred;
-        int quant_index = (int) std::min<double>(fabs(diff) / eb, this->radius * 2) + 1;
+        int quant_index = (int) std::min<double>(this->radius * 2, fabs(diff) / eb) + 1;
         if (quant_index < this->radius * 2) {
             quant_index >>= 1;
             int half_index = quant_index;
@@ -27,7 +27,7 @@ public:
                 quant_index_shifted = this->radius + half_index;
             }
             T decompressed_data = pred + quant_index * eb;
-            if (fabs(decompressed_data - data) > eb) {
+            if (!(fabs(decompressed_data - data) <= eb)) {
                 return 0;
             } else {
                 return quant_index_shifted;
@@ -47,7 +47,7 @@ public:
         //     std::cout << data << " " << pred << " " << eb << std::endl;
         // }
         T diff = data - pred;
-        int quant_index = (int) std::min<double>(fabs(diff) / eb, this->radius * 2) + 1;
+        int quant_index = (int) std::min<double>(this->radius * 2, fabs(diff) / eb) + 1;
         if (quant_index < this->radius * 2) {
             quant_index >>= 1;
             int half_index = quant_index;
@@ -63,7 +63,7 @@ public:
             // if(fabs(data + 14.3927) < 0.0001){
             //     std::cout << decompressed_data << ", err = " << decompressed_data - data << std::endl;
             // }
-            if (fabs(decompressed_data - data) > eb) {
+            if (!(fabs(decompressed_data - data) <= eb)) {
                 unpred.push_back(data);
                 return 0;
             } else {
@@ -83,7 +83,7 @@ public:
             return 0;
         }
         T diff = ori - pred;
-        int quant_index = (int) std::min<double>(fabs(diff) / eb, this->radius * 2) + 1;
+        int quant_index = (int) std::min<double>(this->radius * 2, fabs(diff) / eb) + 1;
         if (quant_index < this->radius * 2) {
             quant_index >>= 1;
             int half_index = quant_index;
@@ -96,7 +96,7 @@ public:
                 quant_index_shifted = this->radius + half_index;
             }
             T decompressed_data = pred + quant_index * eb;
-            if (fabs(decompressed_data - ori) > eb) {
+            if (!(fabs(decompressed_data - ori) <= eb)) {
                 unpred.push_back(ori);
                 dest = ori;
                 return 0;
-- 
2.43.0


From 249847ae55d956efc5741c99f0c7130bf9206b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:37 +0000
Subject: [PATCH 25/29] fix: release the quantized error bounds of the offline
 codecs

---
 src/sz_compress_cp_preserve_2d.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index 1827426..0f9d2df 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -235,6 +235,7 @@ sz_compress_cp_preserve_2d_offline(const T * U, const T * V, size_t r1, size_t r
 	unsigned char * compressed_eb = (unsigned char *) malloc(Huffman_encode_max_size(2*1024, 2*num_elements));
 	unsigned char * compressed_eb_pos = compressed_eb; 
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, 2*num_elements, compressed_eb_pos);
+	free(eb_quant_index);
 	size_t compressed_eb_size = compressed_eb_pos - compressed_eb;
 	size_t compressed_u_size = 0;
 	size_t compressed_v_size = 0;
@@ -337,6 +338,7 @@ sz_compress_cp_preserve_2d_offline_log(const T * U, const T * V, size_t r1, size
 	unsigned char * compressed_eb = (unsigned char *) malloc(Huffman_encode_max_size(2*1024, num_elements));
 	unsigned char * compressed_eb_pos = compressed_eb; 
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, num_elements, compressed_eb_pos);
+	free(eb_quant_index);
 	size_t compressed_eb_size = compressed_eb_pos - compressed_eb;
 	size_t compressed_u_size = 0;
 	size_t compressed_v_size = 0;
-- 
2.43.0


From bf389018a42f71a85c216e6997eb81acda6fbedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:09 +0000
Subject: [PATCH 26/29] fix: code exact zeros below every logarithm in the
 logarithmic codecs

Zero was coded as -100 and everything below -99 decoded as zero, so values
smaller than 2^-99 came back as zero in the log-domain codecs.
---
 include/sz_cp_preserve_utils.hpp     | 16 ++++++++++++++--
 src/sz_decompress_cp_preserve_2d.cpp | 13 +++++++------
 src/sz_decompress_cp_preserve_3d.cpp | 13 +++++++------
 3 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/include/sz_cp_preserve_utils.hpp b/include/sz_cp_preserve_utils.hpp
index 19650f0..e3d546a 100644
--- a/include/sz_cp_preserve_utils.hpp
+++ b/include/sz_cp_preserve_utils.hpp
@@ -137,6 +137,18 @@ inline void accumulate(const T value, double& positive, double& negative){
 	else negative += - value;
 }
 
+// code of an exact zero in the logarithmic domain, below the logarithm of any nonzero value
+template<typename T>
+inline T log_of_zero(){
+	return std::numeric_limits<T>::min_exponent - std::numeric_limits<T>::digits - 4;
+}
+
+// a decompressed logarithm below this one is the code of an exact zero
+template<typename T>
+inline T log_zero_threshold(){
+	return log_of_zero<T>() + 2;
+}
+
 template<typename T>
 T *
 log_transform(const T * data, unsigned char * sign, size_t n, bool verbose=false){
@@ -149,7 +161,7 @@ log_transform(const T * data, unsigned char * sign, size_t n, bool verbose=false
 		}
 		else{
 			sign[i] = 0;
-			log_data[i] = -100; //TODO???
+			log_data[i] = log_of_zero<T>();
 		}
 	}
 	return log_data;
@@ -168,7 +180,7 @@ log_transform(const T * data, unsigned char * sign, unsigned char * zero, size_t
 		}
 		else{
 			sign[i] = 0;
-			log_data[i] = -100; //TODO???
+			log_data[i] = log_of_zero<T>();
 			zero[i] = 1;
 		}
 	}
diff --git a/src/sz_decompress_cp_preserve_2d.cpp b/src/sz_decompress_cp_preserve_2d.cpp
index 7f90f31..c510439 100644
--- a/src/sz_decompress_cp_preserve_2d.cpp
+++ b/src/sz_decompress_cp_preserve_2d.cpp
@@ -1,6 +1,7 @@
 #include "sz_decompress_3d.hpp"
 #include "sz_decompress_cp_preserve_2d.hpp"
 #include "sz_decompress_block_processing.hpp"
+#include "sz_cp_preserve_utils.hpp"
 #include <limits>
 #include <unordered_set>
 #include "sz3_utils.hpp"
@@ -86,12 +87,12 @@ sz_decompress_cp_preserve_2d_offline_log(const unsigned char * compressed, size_
 	U = sz_decompress_2d_with_eb<T>(compressed_pos, eb, r1, r2);
 	compressed_pos += compressed_u_size;
 	for(int i=0; i<num_elements; i++){
-		if(U[i] < -99) U[i] = 0;
+		if(U[i] < log_zero_threshold<T>()) U[i] = 0;
 		else U[i] = sign_map_u[i] ? exp2(U[i]) : -exp2(U[i]);
 	}
 	V = sz_decompress_2d_with_eb<T>(compressed_pos, eb, r1, r2);
 	for(int i=0; i<num_elements; i++){
-		if(V[i] < -99) V[i] = 0;
+		if(V[i] < log_zero_threshold<T>()) V[i] = 0;
 		else V[i] = sign_map_v[i] ? exp2(V[i]) : -exp2(V[i]);
 	}
 	free(sign_map_u);
@@ -212,8 +213,8 @@ sz_decompress_cp_preserve_2d_online_log(const unsigned char * compressed, size_t
 				unpred_data_indices.insert(i*r2 + j);
 				T data_U = *(unpred_data_pos ++);
 				T data_V = *(unpred_data_pos ++);
-				*U_pos = (data_U == 0) ? -100 : std::log2(std::fabs(data_U));
-				*V_pos = (data_V == 0) ? -100 : std::log2(std::fabs(data_V));
+				*U_pos = (data_U == 0) ? log_of_zero<T>() : std::log2(std::fabs(data_U));
+				*V_pos = (data_V == 0) ? log_of_zero<T>() : std::log2(std::fabs(data_V));
 				eb_quant_index_pos ++;
 			}
 			else{
@@ -241,9 +242,9 @@ sz_decompress_cp_preserve_2d_online_log(const unsigned char * compressed, size_t
 			V[i] = *(unpred_data_pos++);
 		}
 		else{
-			if(U[i] < -99) U[i] = 0;
+			if(U[i] < log_zero_threshold<T>()) U[i] = 0;
 			else U[i] = sign_map_u[i] ? exp2(U[i]) : -exp2(U[i]);
-			if(V[i] < -99) V[i] = 0;
+			if(V[i] < log_zero_threshold<T>()) V[i] = 0;
 			else V[i] = sign_map_v[i] ? exp2(V[i]) : -exp2(V[i]);
 		}
 	}
diff --git a/src/sz_decompress_cp_preserve_3d.cpp b/src/sz_decompress_cp_preserve_3d.cpp
index 4c24369..9c6bdaf 100644
--- a/src/sz_decompress_cp_preserve_3d.cpp
+++ b/src/sz_decompress_cp_preserve_3d.cpp
@@ -1,6 +1,7 @@
 #include "sz_decompress_3d.hpp"
 #include "sz_decompress_cp_preserve_2d.hpp"
 #include "sz_decompress_block_processing.hpp"
+#include "sz_cp_preserve_utils.hpp"
 #include <limits>
 #include <unordered_set>
 
@@ -58,7 +59,7 @@ sz_decompress_cp_preserve_3d_online_log(const unsigned char * compressed, size_t
 					unpred_data_indices.insert(index);
 					for(int p=0; p<3; p++){
 						T cur_data = *(eb_zero_data_pos ++);
-						*(data_pos[p]) = (cur_data == 0) ? -100 : std::log2(std::fabs(cur_data));
+						*(data_pos[p]) = (cur_data == 0) ? log_of_zero<T>() : std::log2(std::fabs(cur_data));
 					}
 					eb_quant_index_pos ++;
 				}
@@ -94,11 +95,11 @@ sz_decompress_cp_preserve_3d_online_log(const unsigned char * compressed, size_t
 			W[i] = *(eb_zero_data_pos++);
 		}
 		else{
-			if(U[i] < -99) U[i] = 0;
+			if(U[i] < log_zero_threshold<T>()) U[i] = 0;
 			else U[i] = sign_map_u[i] ? exp2(U[i]) : -exp2(U[i]);
-			if(V[i] < -99) V[i] = 0;
+			if(V[i] < log_zero_threshold<T>()) V[i] = 0;
 			else V[i] = sign_map_v[i] ? exp2(V[i]) : -exp2(V[i]);
-			if(W[i] < -99) W[i] = 0;
+			if(W[i] < log_zero_threshold<T>()) W[i] = 0;
 			else W[i] = sign_map_w[i] ? exp2(W[i]) : -exp2(W[i]);
 		}
 	}
@@ -157,7 +158,7 @@ sz_decompress_cp_preserve_3d_unstructured(const unsigned char * compressed, int
 			unpred_data_indices.insert(i);
 			for(int p=0; p<3; p++){
 				T cur_data = *(eb_zero_data_pos ++);
-				data_pos[p] = (cur_data == 0) ? -100 : std::log2(std::fabs(cur_data));
+				data_pos[p] = (cur_data == 0) ? log_of_zero<T>() : std::log2(std::fabs(cur_data));
 			}
 			eb_quant_index_pos ++;
 		}
@@ -185,7 +186,7 @@ sz_decompress_cp_preserve_3d_unstructured(const unsigned char * compressed, int
 		}
 		else{
 			for(int p=0; p<3; p++){
-				if(data[3*i + p] < -99) data[3*i + p] = 0;
+				if(data[3*i + p] < log_zero_threshold<T>()) data[3*i + p] = 0;
 				else data[3*i + p] = *sign_pos ? exp2(data[3*i + p]) : -exp2(data[3*i + p]);
 				sign_pos ++;
 			}
-- 
2.43.0


From 8a47e8cdd992d29114efa5717cb7cd620eb19fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:35 +0000
Subject: [PATCH 27/29] fix: keep the user's bound when derived bounds overflow

---
 include/sz_cp_preserve_utils.hpp | 7 +++++--
 include/sz_def.hpp               | 2 ++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/sz_cp_preserve_utils.hpp b/include/sz_cp_preserve_utils.hpp
index e3d546a..5d70b67 100644
--- a/include/sz_cp_preserve_utils.hpp
+++ b/include/sz_cp_preserve_utils.hpp
@@ -17,7 +17,8 @@ inline int eb_exponential_quantize(double& eb, const int base, const double log_
 		eb = 0;
 		return 0;
 	}
-	if(!(eb / threshold <= std::numeric_limits<double>::max())) eb = std::numeric_limits<double>::max() * threshold;
+	const double max_ratio = std::numeric_limits<double>::max() / (2 * base);
+	if(!(eb / threshold <= max_ratio)) eb = max_ratio * threshold;
 	int id = log2(eb / threshold)/log_of_base;
 	if(id == 0){
 		// index 0 is decoded as a zero error bound
@@ -128,7 +129,9 @@ inline float acbrt1(float x0) {
 inline float max_eb_to_keep_sign_3d_offline(const float positive, const float negative){
 	float P = acbrt1(positive);
 	float N = acbrt1(negative);
-	return fabs(P - N)/(P + N);
+	float eb = fabs(P - N)/(P + N);
+	// products that overflowed leave no bound to derive
+	return std::isfinite(eb) ? eb : 0;
 }
 
 template<typename T>
diff --git a/include/sz_def.hpp b/include/sz_def.hpp
index 9d28edf..16a0aae 100644
--- a/include/sz_def.hpp
+++ b/include/sz_def.hpp
@@ -148,6 +148,8 @@ struct meanInfo{
 #define MIN(a, b) ((a<b)?(a):(b))
 template<class T>
 inline T MINF(const T& a, const T& b){
+    // an error bound that could not be derived (NaN after overflow) leaves nothing to spend
+    if((a != a) || (b != b)) return 0;
     return (a<b) ? (a) : (b);
 }
 
-- 
2.43.0


From e74deff0a98c896cf66136d55c60349191c7e4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:47 +0000
Subject: [PATCH 28/29] fix: size the 3D block buffer by the data, whatever the
 block size

---
 include/sz_def.hpp       |  8 ++++----
 src/sz_compress_3d.cpp   | 10 ++++++----
 src/sz_decompress_3d.cpp | 10 ++++++----
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/sz_def.hpp b/include/sz_def.hpp
index 16a0aae..9415afd 100644
--- a/include/sz_def.hpp
+++ b/include/sz_def.hpp
@@ -90,7 +90,7 @@ struct DSize_2d{
 	size_t d2;
 	size_t num_elements;
 	int block_size;
-	int max_num_block_elements;
+	size_t max_num_block_elements;
 	size_t num_x;
 	size_t num_y;
 	size_t num_blocks;
@@ -99,7 +99,7 @@ struct DSize_2d{
 		d1 = r1, d2 = r2;
 		num_elements = r1 * r2;
 		block_size = bs;
-		max_num_block_elements = bs * bs;
+		max_num_block_elements = (size_t) bs * bs;
 		num_x = (r1 - 1) / block_size + 1;
 		num_y = (r2 - 1) / block_size + 1;
 		num_blocks = num_x * num_y;
@@ -113,7 +113,7 @@ struct DSize_3d{
 	size_t d3;
 	size_t num_elements;
 	int block_size;
-	int max_num_block_elements;
+	size_t max_num_block_elements;
 	size_t num_x;
 	size_t num_y;
 	size_t num_z;
@@ -124,7 +124,7 @@ struct DSize_3d{
 		d1 = r1, d2 = r2, d3 = r3;
 		num_elements = r1 * r2 * r3;
 		block_size = bs;
-		max_num_block_elements = bs * bs * bs;
+		max_num_block_elements = (size_t) bs * bs * bs;
 		num_x = (r1 - 1) / block_size + 1;
 		num_y = (r2 - 1) / block_size + 1;
 		num_z = (r3 - 1) / block_size + 1;
diff --git a/src/sz_compress_3d.cpp b/src/sz_compress_3d.cpp
index b41907f..d13e5d6 100644
--- a/src/sz_compress_3d.cpp
+++ b/src/sz_compress_3d.cpp
@@ -267,10 +267,12 @@ prediction_and_quantization_3d(const T * data, const DSize_3d& size, const meanI
 	for(int i=0; i<RegCoeffNum3d-1; i++) 
 		reg_precisions[i] = rel_param_err / size.block_size;
 	reg_precisions[RegCoeffNum3d - 1] = rel_param_err;
-	size_t buffer_dim0_offset = (size.block_size + 1) * (size.block_size + 1);
-	size_t buffer_dim1_offset = size.block_size + 1;
-	T * pred_buffer = (T *) malloc((size.block_size+1)*(size.block_size+1)*(size.block_size+1)*sizeof(T));
-	memset(pred_buffer, 0, (size.block_size+1)*(size.block_size+1)*(size.block_size+1)*sizeof(T));
+	// a block never exceeds the data, however large the block size
+	size_t buffer_dim1_offset = MIN((size_t) size.block_size, size.d3) + 1;
+	size_t buffer_dim0_offset = (MIN((size_t) size.block_size, size.d2) + 1) * buffer_dim1_offset;
+	size_t buffer_size = (MIN((size_t) size.block_size, size.d1) + 1) * buffer_dim0_offset * sizeof(T);
+	T * pred_buffer = (T *) malloc(buffer_size);
+	memset(pred_buffer, 0, buffer_size);
 	size_t reg_count = 0;
 	int capacity_lorenzo = mean_info.use_mean ? capacity - 2 : capacity;
 	const T * x_data_pos = data;
diff --git a/src/sz_decompress_3d.cpp b/src/sz_decompress_3d.cpp
index b02cfe9..d6ef2cf 100644
--- a/src/sz_decompress_3d.cpp
+++ b/src/sz_decompress_3d.cpp
@@ -171,10 +171,12 @@ prediction_and_decompression_3d(const DSize_3d& size, const meanInfo<T>& mean_in
 	const int * type_pos = type;
 	const unsigned char * indicator_pos = indicator;
 	const float * reg_params_pos = reg_params;
-	size_t buffer_dim0_offset = (size.block_size + 1) * (size.block_size + 1);
-	size_t buffer_dim1_offset = size.block_size + 1;
-	T * pred_buffer = (T *) malloc((size.block_size+1)*(size.block_size+1)*(size.block_size+1)*sizeof(T));
-	memset(pred_buffer, 0, (size.block_size+1)*(size.block_size+1)*(size.block_size+1)*sizeof(T));
+	// a block never exceeds the data, however large the block size
+	size_t buffer_dim1_offset = MIN((size_t) size.block_size, size.d3) + 1;
+	size_t buffer_dim0_offset = (MIN((size_t) size.block_size, size.d2) + 1) * buffer_dim1_offset;
+	size_t buffer_size = (MIN((size_t) size.block_size, size.d1) + 1) * buffer_dim0_offset * sizeof(T);
+	T * pred_buffer = (T *) malloc(buffer_size);
+	memset(pred_buffer, 0, buffer_size);
 	T * x_data_pos = dec_data;
 	for(size_t i=0; i<size.num_x; i++){
 		T * y_data_pos = x_data_pos;
-- 
2.43.0


From 8d150083482bf9792b1ded399c7c7b6baca58039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 29/29] fix: find the x of a bilinear critical point from the
 equation that determines it

Where the interpolant is (nearly) independent of x in one component, dividing by
Q[2] gave a root out of rounding noise, and the verification compared critical
points with the wrong Jacobian.
---
 src/sz_compress_cp_preserve_2d_bilinear.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/sz_compress_cp_preserve_2d_bilinear.cpp b/src/sz_compress_cp_preserve_2d_bilinear.cpp
index 33018b5..d0677a3 100644
--- a/src/sz_compress_cp_preserve_2d_bilinear.cpp
+++ b/src/sz_compress_cp_preserve_2d_bilinear.cpp
@@ -622,14 +622,19 @@ int inverse_bilinear_interpolation(const double A0, const double B0, const doubl
     static_cast<double>(trace/2 - std::sqrt(trace*trace/4 - det))
   }; 
 
-  double x[2] = {
-    (lambda[0]-Q[3])/Q[2], 
-    (lambda[1]-Q[3])/Q[2]
-  }; 
+  double x[2];
   double y[2] = {
     lambda[0], 
     lambda[1]
   };
+  // x from the equation that determines it: the other one may be (nearly) independent of x
+  for (int i=0; i<2; i++) {
+    double f0 = A0*y[i] + B0, g0 = C0*y[i] + D0;
+    double f1 = A1*y[i] + B1, g1 = C1*y[i] + D1;
+    double s0 = fabs(A0*y[i]) + fabs(B0) + fabs(C0*y[i]) + fabs(D0);
+    double s1 = fabs(A1*y[i]) + fabs(B1) + fabs(C1*y[i]) + fabs(D1);
+    x[i] = (fabs(f0)*s1 >= fabs(f1)*s0) ? -g0/f0 : -g1/f1;
+  }
   int nroots = 0;
   for (int i=0; i<2; i++) // check the two roots 
     if (x[i]>=0 && x[i]<1 && y[i]>=0 && y[i]<1) {
-- 
2.43.0

