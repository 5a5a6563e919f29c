From e91dbcc30eb07aa9aa6309445d7199c6be0d8738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:18 +0000
Subject: [PATCH 01/53] fix: cuckoo filter: inserting a non-const string must
 not be taken for a container of chars

---
 filter/cuckoo_filter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter/cuckoo_filter.hpp b/filter/cuckoo_filter.hpp
index 087ade8..c32bced 100644
--- a/filter/cuckoo_filter.hpp
+++ b/filter/cuckoo_filter.hpp
@@ -190,7 +190,7 @@ public:
     }
 
     template <class T, class Allocator, template <class,class> class Container>
-    inline bool Insert(Container<T, Allocator>& container)
+    inline bool Insert(const Container<T, Allocator>& container)
     {
         bool insert_status = true; 
         for(auto i = 0; i < container.size(); i++){
-- 
2.43.0


From 9944983c2ea368572fd808fcbcffea992df1fcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:18 +0000
Subject: [PATCH 02/53] fix: cuckoo filter: deleting an element removes one
 copy of its tag only

---
 filter/cuckoo_filter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filter/cuckoo_filter.hpp b/filter/cuckoo_filter.hpp
index c32bced..96fef43 100644
--- a/filter/cuckoo_filter.hpp
+++ b/filter/cuckoo_filter.hpp
@@ -264,13 +264,13 @@ public:
             TrySaveVictim(index1, delete_slot_index, tag);
         }
     
-        if (DeleteTagFromBucket(index2, tag, delete_slot_index)) {
+        else if (DeleteTagFromBucket(index2, tag, delete_slot_index)) {
             inserted_element_num--;
             delete_status = true;
             TrySaveVictim(index2, delete_slot_index, tag);
         } 
     
-        if (victim.used && tag == victim.tag && (index1 == victim.bucket_index || index2 == victim.bucket_index)) {
+        else if (victim.used && tag == victim.tag && (index1 == victim.bucket_index || index2 == victim.bucket_index)) {
             victim.used = 0;
             delete_status = true;
         }
-- 
2.43.0


From 146a6d2bc0007ee24857006cf8adb62d340f6516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:18 +0000
Subject: [PATCH 03/53] fix: cuckoo filter: buffer and file images restore the
 victim flag and the table

---
 filter/cuckoo_filter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filter/cuckoo_filter.hpp b/filter/cuckoo_filter.hpp
index 96fef43..e0175d4 100644
--- a/filter/cuckoo_filter.hpp
+++ b/filter/cuckoo_filter.hpp
@@ -423,7 +423,7 @@ public:
         fin >> victim.used;
 
         bucket_table.resize(bucket_byte_size * bucket_num, static_cast<uint8_t>(0x00));
-        fin >> bucket_table.data(); 
+        fin >> bucket_table; 
       
         return true;
    } 
@@ -444,7 +444,7 @@ public:
 
         memcpy(buffer+48, &victim.bucket_index, 4);
         memcpy(buffer+52, &victim.tag, 4);
-        memcpy(buffer+66, &victim.used, 4);
+        memcpy(buffer+56, &victim.used, 4);
       
         memcpy(buffer+60, bucket_table.data(), bucket_table.size()); 
 
-- 
2.43.0


From 040588e02c96948645d95752b210be46a11fbcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:18 +0000
Subject: [PATCH 04/53] fix: cuckoo filter: do not hash uninitialised bytes
 after a compressed point

---
 filter/cuckoo_filter.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/filter/cuckoo_filter.hpp b/filter/cuckoo_filter.hpp
index e0175d4..1357ae8 100644
--- a/filter/cuckoo_filter.hpp
+++ b/filter/cuckoo_filter.hpp
@@ -154,7 +154,7 @@ public:
     // You can insert any custom-type data you like as below
     inline bool Insert(const ECPoint &A)
     {
-        unsigned char buffer[POINT_BYTE_LEN]; 
+        unsigned char buffer[POINT_BYTE_LEN] = {0}; 
         EC_POINT_point2oct(group, A.point_ptr, POINT_CONVERSION_COMPRESSED, buffer, POINT_BYTE_LEN, nullptr);
         return PlainInsert(buffer, POINT_BYTE_LEN);
     }
@@ -164,7 +164,7 @@ public:
         bool insert_status = true; 
 
         size_t num = vec_A.size();
-        unsigned char *buffer = new unsigned char[num*POINT_BYTE_LEN]; 
+        unsigned char *buffer = new unsigned char[num*POINT_BYTE_LEN](); 
         for(auto i = 0; i < num; i++){
             EC_POINT_point2oct(group, vec_A[i].point_ptr, POINT_CONVERSION_COMPRESSED, 
                                buffer+i*POINT_BYTE_LEN, POINT_BYTE_LEN, nullptr);
@@ -231,7 +231,7 @@ public:
 
     inline bool Contain(const ECPoint& A) 
     {
-        unsigned char buffer[POINT_BYTE_LEN]; 
+        unsigned char buffer[POINT_BYTE_LEN] = {0}; 
         EC_POINT_point2oct(group, A.point_ptr, POINT_CONVERSION_COMPRESSED, buffer, POINT_BYTE_LEN, nullptr);
         return PlainContain(buffer, POINT_BYTE_LEN);
     }
@@ -291,7 +291,7 @@ public:
 
     inline bool Delete(const ECPoint& A) 
     {
-        unsigned char buffer[POINT_BYTE_LEN]; 
+        unsigned char buffer[POINT_BYTE_LEN] = {0}; 
         EC_POINT_point2oct(group, A.point_ptr, POINT_CONVERSION_COMPRESSED, buffer, POINT_BYTE_LEN, nullptr);
         return PlainDelete(buffer, POINT_BYTE_LEN);
     }
-- 
2.43.0


From 67ed898dcd8c0b4a238499e7011ca12ca89fc080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:13 +0000
Subject: [PATCH 05/53] fix: BigInt: the fixed-length byte encoding pads to the
 requested length

---
 crypto/bigint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/bigint.hpp b/crypto/bigint.hpp
index 1a49aa1..1950cd5 100644
--- a/crypto/bigint.hpp
+++ b/crypto/bigint.hpp
@@ -283,7 +283,7 @@ void BigInt::FromByteString(const unsigned char* buffer, size_t LEN)
 // an ad-hoc implementation for fixed length conversion: default LEN = BN_BYTE_LEN
 void BigInt::ToByteString(unsigned char* buffer, size_t LEN) const
 {
-    BN_bn2bin(this->bn_ptr, buffer);
+    BN_bn2binpad(this->bn_ptr, buffer, LEN);
 }  
 
 std::string BigInt::ToByteString() const
-- 
2.43.0


From 0f7680c0304f931310d8825ca4a232ce8391bee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:13 +0000
Subject: [PATCH 06/53] fix: BigInt: -a mod m is 0 when a is a non-zero
 multiple of m

---
 crypto/bigint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/bigint.hpp b/crypto/bigint.hpp
index 1950cd5..8d64dae 100644
--- a/crypto/bigint.hpp
+++ b/crypto/bigint.hpp
@@ -476,7 +476,7 @@ BigInt BigInt::ModNegate(const BigInt& modulus) const {
     if (IsZero()) {
         return *this;
     }
-    return modulus - Mod(modulus);
+    return (modulus - Mod(modulus)).Mod(modulus);
 }
 
 // Returns a BigInt whose value is (*this >> n).
-- 
2.43.0


From 70d360b1c7c874337b9d282a6d221ebcaa629cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:28 +0000
Subject: [PATCH 07/53] fix: Block::ClearBit clears the addressed bit instead
 of inverting the block

---
 crypto/block.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/block.hpp b/crypto/block.hpp
index 8040e91..37046c7 100644
--- a/crypto/block.hpp
+++ b/crypto/block.hpp
@@ -54,7 +54,7 @@ void SetBit(block &a, size_t n)
 // set the n-th bit = 0
 void ClearBit(block &a, size_t n)
 {
-    a = _mm_andnot_si128(a, GenMaskBlock(n));
+    a = _mm_andnot_si128(GenMaskBlock(n), a);
 }
 
 inline std::vector<block> AND(std::vector<block> &vec_a, std::vector<block> &vec_b) 
-- 
2.43.0


From 2980f4241051ce5a02f51d5c56ad3bf839735d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:28 +0000
Subject: [PATCH 08/53] fix: BitMatrixTranspose: no unsigned underflow when a
 side is 8

---
 crypto/block.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crypto/block.hpp b/crypto/block.hpp
index 37046c7..5fdc5d2 100644
--- a/crypto/block.hpp
+++ b/crypto/block.hpp
@@ -286,7 +286,7 @@ inline void BitMatrixTranspose(uint8_t const *input, uint64_t ROW_NUM, uint64_t
     assert(ROW_NUM%8 == 0 && COLUMN_NUM%8 == 0);
 
     // Do the main body in 16x8 blocks:
-    for (rr = 0; rr <= ROW_NUM - 16; rr += 16) {
+    for (rr = 0; rr + 16 <= ROW_NUM; rr += 16) {
         for (cc = 0; cc < COLUMN_NUM; cc += 8) {
             vec = _mm_set_epi8(INPUT(rr + 15, cc), INPUT(rr + 14, cc), INPUT(rr + 13, cc),
                                INPUT(rr + 12, cc), INPUT(rr + 11, cc), INPUT(rr + 10, cc),
@@ -305,7 +305,7 @@ inline void BitMatrixTranspose(uint8_t const *input, uint64_t ROW_NUM, uint64_t
     if ((COLUMN_NUM%8 == 0 && COLUMN_NUM%16 != 0) || (ROW_NUM%8 == 0 && ROW_NUM%16 != 0)) {
         // The fancy optimizations in the else-branch don't work if the above if-condition
         // holds, so we use the simpler non-simd variant for that case.
-        for (cc = 0; cc <= COLUMN_NUM - 16; cc += 16) {
+        for (cc = 0; cc + 16 <= COLUMN_NUM; cc += 16) {
             for (i = 0; i < 8; ++i) {
                 tmp.b[i] = h = *(uint16_t const *)&INPUT(rr + i, cc);
                 tmp.b[i + 8] = h >> 8;
@@ -317,7 +317,7 @@ inline void BitMatrixTranspose(uint8_t const *input, uint64_t ROW_NUM, uint64_t
         }
     } 
     else {
-        for (cc = 0; cc <= COLUMN_NUM - 16; cc += 16) {
+        for (cc = 0; cc + 16 <= COLUMN_NUM; cc += 16) {
             vec = _mm_set_epi16(*(uint16_t const *)&INPUT(rr + 7, cc),
                                 *(uint16_t const *)&INPUT(rr + 6, cc),
                                 *(uint16_t const *)&INPUT(rr + 5, cc),
-- 
2.43.0


From 2d53aa1905f7c739af8e225ad17f89a13635f492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:28 +0000
Subject: [PATCH 09/53] fix: Hash::CBCAES hashes the zero-padded copy, not
 bytes beyond the input

---
 crypto/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/hash.hpp b/crypto/hash.hpp
index c4c1e64..010c7df 100644
--- a/crypto/hash.hpp
+++ b/crypto/hash.hpp
@@ -49,7 +49,7 @@ void CBCAES(const unsigned char *input, size_t HASH_INPUT_LEN, unsigned char *ou
 
     block data[BLOCK_NUM];
     for(auto i = 0; i < BLOCK_NUM; i++){
-        data[i] = _mm_load_si128((block *)(input + i*16));
+        data[i] = _mm_loadu_si128((block *)(buffer + i*16));
     } 
 
     // use CBC-AES hash: digest lies in the last block
-- 
2.43.0


From a2fd4d8c58122af9c17277505b418d7d04ef7d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:28 +0000
Subject: [PATCH 10/53] fix: check_invert_gf128 accepts any non-zero element as
 pivot

---
 mpc/okvs/okvs_utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc/okvs/okvs_utility.hpp b/mpc/okvs/okvs_utility.hpp
index f83ae3d..d12aa89 100644
--- a/mpc/okvs/okvs_utility.hpp
+++ b/mpc/okvs/okvs_utility.hpp
@@ -573,7 +573,7 @@ bool check_invert_gf128(std::vector<std::vector<block>> &mat)
         {
             for (auto j = i + 1; j < n; j++)
             {
-                if (Block::Compare(mat[j][i], one_block))
+                if (!Block::Compare(mat[j][i], Block::zero_block))
                 {
                     mat[i].swap(mat[j]);
                     Inv[i].swap(Inv[j]);
-- 
2.43.0


From d64bddf6d7e231f734af1383015d89c8fc23c26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:26 +0000
Subject: [PATCH 11/53] fix: ECPoint file streams restore the point at infinity

---
 crypto/ec_point.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crypto/ec_point.hpp b/crypto/ec_point.hpp
index ee427c7..a7b1189 100644
--- a/crypto/ec_point.hpp
+++ b/crypto/ec_point.hpp
@@ -278,11 +278,11 @@ std::ofstream &operator<<(std::ofstream &fout, const ECPoint &A)
 { 
     int thread_num = omp_get_thread_num();
 	#ifdef ECPOINT_COMPRESSED
-		unsigned char buffer[POINT_COMPRESSED_BYTE_LEN];
+		unsigned char buffer[POINT_COMPRESSED_BYTE_LEN] = {0};
 		EC_POINT_point2oct(group, A.point_ptr, POINT_CONVERSION_COMPRESSED, buffer, POINT_COMPRESSED_BYTE_LEN, bn_ctx[thread_num]);
         fout.write(reinterpret_cast<char *>(buffer), POINT_COMPRESSED_BYTE_LEN); 
 	#else
-		unsigned char buffer[POINT_BYTE_LEN];
+		unsigned char buffer[POINT_BYTE_LEN] = {0};
 		EC_POINT_point2oct(group, A.point_ptr, POINT_CONVERSION_UNCOMPRESSED, buffer, POINT_BYTE_LEN, bn_ctx[thread_num]);
         fout.write(reinterpret_cast<char *>(buffer), POINT_BYTE_LEN); 
 	#endif
@@ -296,11 +296,13 @@ std::ifstream &operator>>(std::ifstream &fin, ECPoint &A)
     #ifdef ECPOINT_COMPRESSED
         unsigned char buffer[POINT_COMPRESSED_BYTE_LEN];
         fin.read(reinterpret_cast<char *>(buffer), POINT_COMPRESSED_BYTE_LEN); 
-        EC_POINT_oct2point(group, A.point_ptr, buffer, POINT_COMPRESSED_BYTE_LEN, bn_ctx[thread_num]);
+        if(buffer[0] == 0) EC_POINT_set_to_infinity(group, A.point_ptr); // the identity is encoded as zero bytes
+        else EC_POINT_oct2point(group, A.point_ptr, buffer, POINT_COMPRESSED_BYTE_LEN, bn_ctx[thread_num]);
     #else
         unsigned char buffer[POINT_BYTE_LEN];
         fin.read(reinterpret_cast<char *>(buffer), POINT_BYTE_LEN); 
-        EC_POINT_oct2point(group, A.point_ptr, buffer, POINT_BYTE_LEN, bn_ctx[thread_num]); 
+        if(buffer[0] == 0) EC_POINT_set_to_infinity(group, A.point_ptr); // the identity is encoded as zero bytes
+        else EC_POINT_oct2point(group, A.point_ptr, buffer, POINT_BYTE_LEN, bn_ctx[thread_num]); 
     #endif
     return fin;            
 }
-- 
2.43.0


From 06374a3d9bed2946eb350ec19795e0679e6e57cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:26 +0000
Subject: [PATCH 12/53] fix: NetIO transmits the point at infinity

---
 netio/stream_channel.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/netio/stream_channel.hpp b/netio/stream_channel.hpp
index f411deb..3860344 100644
--- a/netio/stream_channel.hpp
+++ b/netio/stream_channel.hpp
@@ -280,14 +280,14 @@ void NetIO::SendECPoints(const ECPoint* A, size_t LEN)
 {
 	int thread_num = omp_get_thread_num();
 	#ifdef ECPOINT_COMPRESSED
-		unsigned char* buffer = new unsigned char[LEN*POINT_COMPRESSED_BYTE_LEN];
+		unsigned char* buffer = new unsigned char[LEN*POINT_COMPRESSED_BYTE_LEN]();
 		for(auto i = 0; i < LEN; i++) {
     		EC_POINT_point2oct(group, A[i].point_ptr, POINT_CONVERSION_COMPRESSED, 
 				               buffer + i*POINT_COMPRESSED_BYTE_LEN, POINT_COMPRESSED_BYTE_LEN, bn_ctx[thread_num]);
     	}
 		SendBytes(buffer, LEN*POINT_COMPRESSED_BYTE_LEN);
 	#else
-		unsigned char* buffer = new unsigned char[LEN*POINT_BYTE_LEN];
+		unsigned char* buffer = new unsigned char[LEN*POINT_BYTE_LEN]();
 		for(auto i = 0; i < LEN; i++) {
     		EC_POINT_point2oct(group, A[i].point_ptr, POINT_CONVERSION_UNCOMPRESSED, 
 				               buffer + i*POINT_BYTE_LEN, POINT_BYTE_LEN, bn_ctx[thread_num]);
@@ -305,14 +305,16 @@ void NetIO::ReceiveECPoints(ECPoint* A, size_t LEN)
 		unsigned char* buffer = new unsigned char[LEN*POINT_COMPRESSED_BYTE_LEN];
 		ReceiveBytes(buffer, LEN*POINT_COMPRESSED_BYTE_LEN); 
 		for(auto i = 0; i < LEN; i++) {
-			EC_POINT_oct2point(group, A[i].point_ptr, buffer+i*POINT_COMPRESSED_BYTE_LEN, 
+			if(buffer[i*POINT_COMPRESSED_BYTE_LEN] == 0) EC_POINT_set_to_infinity(group, A[i].point_ptr); // the identity
+			else EC_POINT_oct2point(group, A[i].point_ptr, buffer+i*POINT_COMPRESSED_BYTE_LEN, 
 			                   POINT_COMPRESSED_BYTE_LEN, bn_ctx[thread_num]);
 		}
 	#else
 		unsigned char* buffer = new unsigned char[LEN*POINT_BYTE_LEN];
 		ReceiveBytes(buffer, LEN*POINT_BYTE_LEN); 
 		for(auto i = 0; i < LEN; i++) {
-			EC_POINT_oct2point(group, A[i].point_ptr, buffer+i*POINT_BYTE_LEN, POINT_BYTE_LEN, bn_ctx[thread_num]);
+			if(buffer[i*POINT_BYTE_LEN] == 0) EC_POINT_set_to_infinity(group, A[i].point_ptr); // the identity
+			else EC_POINT_oct2point(group, A[i].point_ptr, buffer+i*POINT_BYTE_LEN, POINT_BYTE_LEN, bn_ctx[thread_num]);
 		}
 	#endif
 
@@ -346,11 +348,11 @@ void NetIO::SendECPoint(const ECPoint &A)
 {
 	int thread_num = omp_get_thread_num();
 	#ifdef ECPOINT_COMPRESSED
-		unsigned char buffer[POINT_COMPRESSED_BYTE_LEN];
+		unsigned char buffer[POINT_COMPRESSED_BYTE_LEN] = {0};
 		EC_POINT_point2oct(group, A.point_ptr, POINT_CONVERSION_COMPRESSED, buffer, POINT_COMPRESSED_BYTE_LEN, bn_ctx[thread_num]);
 		SendBytes(buffer, POINT_COMPRESSED_BYTE_LEN);
 	#else
-		unsigned char buffer[POINT_BYTE_LEN];
+		unsigned char buffer[POINT_BYTE_LEN] = {0};
 		EC_POINT_point2oct(group, A.point_ptr, POINT_CONVERSION_UNCOMPRESSED, buffer, POINT_BYTE_LEN, bn_ctx[thread_num]);
 		SendBytes(buffer, POINT_BYTE_LEN);
 	#endif
@@ -362,11 +364,13 @@ void NetIO::ReceiveECPoint(ECPoint &A)
 	#ifdef ECPOINT_COMPRESSED
 		unsigned char buffer[POINT_COMPRESSED_BYTE_LEN];
 		ReceiveBytes(buffer, POINT_COMPRESSED_BYTE_LEN); 
-		EC_POINT_oct2point(group, A.point_ptr, buffer, POINT_COMPRESSED_BYTE_LEN, bn_ctx[thread_num]);
+		if(buffer[0] == 0) EC_POINT_set_to_infinity(group, A.point_ptr); // the identity
+		else EC_POINT_oct2point(group, A.point_ptr, buffer, POINT_COMPRESSED_BYTE_LEN, bn_ctx[thread_num]);
 	#else
 		unsigned char buffer[POINT_BYTE_LEN];
 		ReceiveBytes(buffer, POINT_BYTE_LEN); 
-		EC_POINT_oct2point(group, A.point_ptr, buffer, POINT_BYTE_LEN, bn_ctx[thread_num]);
+		if(buffer[0] == 0) EC_POINT_set_to_infinity(group, A.point_ptr); // the identity
+		else EC_POINT_oct2point(group, A.point_ptr, buffer, POINT_BYTE_LEN, bn_ctx[thread_num]);
 	#endif
 }
 
-- 
2.43.0


From b620908b0d4ad460e2e7e1c855c36368a13996b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:26 +0000
Subject: [PATCH 13/53] fix: DLOG: loading a table forgets the entries of the
 previously loaded one

---
 pke/calculate_dlog.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pke/calculate_dlog.hpp b/pke/calculate_dlog.hpp
index 3b5ca55..ff9d573 100755
--- a/pke/calculate_dlog.hpp
+++ b/pke/calculate_dlog.hpp
@@ -241,6 +241,7 @@ void LoadTable(std::string table_filename, size_t RANGE_LEN, size_t TRADEOFF_NUM
         #pragma omp section
         {
             size_t hashkey; 
+            encoding2index_map.clear(); // drop the entries of a previously loaded table
             encoding2index_map.reserve(BABYSTEP_NUM); 
             /* point_to_index_map[ECn_to_String(babystep)] = i */
             for(auto i = 0; i < BABYSTEP_NUM; i++)
-- 
2.43.0


From c228d681e9ce993e481125d2f454a7c167932f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:26 +0000
Subject: [PATCH 14/53] fix: DLOG: an odd range length is searched completely

---
 pke/calculate_dlog.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pke/calculate_dlog.hpp b/pke/calculate_dlog.hpp
index ff9d573..1fb461d 100755
--- a/pke/calculate_dlog.hpp
+++ b/pke/calculate_dlog.hpp
@@ -11,7 +11,7 @@ this hpp implements DLOG algorithm
 ** Shanks algorithm for DLOG problem: given (g, h) find x \in [0, n = 2^RANGE_LEN) s.t. g^x = h 
 ** g^{j*giantstep_size + i} = g^x; giantstep_num = n/giantstep_size
 ** babystep keytable size = 2^(RANGE_LEN/2+TRADEOFF_NUM)
-** giantstep num/loop num = 2^(RANGE_LEN/2-TRADEOFF_NUM)
+** giantstep num/loop num = 2^(RANGE_LEN-RANGE_LEN/2-TRADEOFF_NUM)
 */
 
 #include "../crypto/ec_point.hpp"
@@ -66,7 +66,7 @@ std::string GetTableFileName(ECPoint &g, size_t RANGE_LEN, size_t TRADEOFF_NUM)
     std::string str_base = std::to_string(2);
     std::string str_exp0 = std::to_string(RANGE_LEN);    // range size
     std::string str_exp1 = std::to_string(RANGE_LEN/2+TRADEOFF_NUM);  // babystep key table size
-    std::string str_exp2 = std::to_string(RANGE_LEN/2-TRADEOFF_NUM-(size_t)log2(SEARCH_TASK_NUM));  // (log) giant step amplification factor: default value=0 
+    std::string str_exp2 = std::to_string(RANGE_LEN-RANGE_LEN/2-TRADEOFF_NUM-(size_t)log2(SEARCH_TASK_NUM));  // (log) giant step amplification factor: default value=0 
     // use 8-byte uint64_t hash value as an identifier of EC Point 
     std::string str_suffix = ToHexString(Hash::ECPointToString(g));
     str_suffix = str_suffix.substr(0,16);
@@ -139,7 +139,7 @@ void BuildSaveTable(ECPoint &g, size_t RANGE_LEN, size_t TRADEOFF_NUM, std::stri
     }  
 
     // part 2: build giantstep aux info 
-    size_t GIANTSTEP_NUM = pow(2, RANGE_LEN/2 - TRADEOFF_NUM); 
+    size_t GIANTSTEP_NUM = pow(2, RANGE_LEN - RANGE_LEN/2 - TRADEOFF_NUM); 
     
     /*
     ** each search task will search in #SLICED_GIANTSTEP_NUM GIANTSTEP
@@ -306,7 +306,7 @@ bool SearchSlicedRange(size_t SEARCH_TASK_INDEX, ECPoint target, size_t &SLICED_
 bool ShanksDLOG(const ECPoint &g, const ECPoint &h, size_t RANGE_LEN, size_t TRADEOFF_NUM, BigInt &x)
 {    
     size_t BABYSTEP_NUM  = pow(2, RANGE_LEN/2 + TRADEOFF_NUM); // babystep_num = giantstep_size
-    size_t GIANTSTEP_NUM = pow(2, RANGE_LEN/2 - TRADEOFF_NUM); 
+    size_t GIANTSTEP_NUM = pow(2, RANGE_LEN - RANGE_LEN/2 - TRADEOFF_NUM); 
 
     size_t SLICED_GIANTSTEP_NUM = GIANTSTEP_NUM/SEARCH_TASK_NUM;  
     
-- 
2.43.0


From a38cdee41eaefae3e83eff337099db4da9e849ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:26 +0000
Subject: [PATCH 15/53] fix: x25519 ElGamal draws secret keys and encryption
 randomness from fresh seeds

---
 pke/elgamal.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pke/elgamal.hpp b/pke/elgamal.hpp
index 19e5863..b44e380 100755
--- a/pke/elgamal.hpp
+++ b/pke/elgamal.hpp
@@ -280,8 +280,8 @@ PP Setup()
 std::tuple<EC25519Point, std::vector<uint8_t>> KeyGen(const PP &pp)
 { 
     std::vector<uint8_t> sk(32); 
-    PRG::Seed seed = PRG::SetSeed(fixed_seed, 0); // initialize PRG
-    GenRandomBytes(seed, sk.data(), 32);  // pick a random generator
+    PRG::Seed seed = PRG::SetSeed(nullptr, 0); // initialize PRG
+    GenRandomBytes(seed, sk.data(), 32);  // pick a random secret key
     EC25519Point pk = pp.g * sk; // pk = g^sk  
 
     #ifdef PRINT
@@ -300,7 +300,7 @@ CT Enc(const PP &pp, const EC25519Point &pk, const EC25519Point &m)
     CT ct;
     // generate the random coins 
     std::vector<uint8_t> r(32); 
-    PRG::Seed seed = PRG::SetSeed(fixed_seed, 0); // initialize PRG
+    PRG::Seed seed = PRG::SetSeed(nullptr, 0); // initialize PRG
     GenRandomBytes(seed, r.data(), 32);  // pick a random number
 
     // begin encryption
-- 
2.43.0


From ac7c80d3acf8d1a4a91dfaac13863e119e1ae61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:31 +0000
Subject: [PATCH 16/53] fix: write OPRF, OT-extension and PRG parameters in
 binary

Inside these namespaces the stream operators of Serialization were hidden, so
sizes and flags were written as formatted text without separators and could
not be read back (e.g. 32 and 32 became 3232).
---
 crypto/prg.hpp        | 3 +++
 mpc/oprf/ddh_oprf.hpp | 3 +++
 mpc/ot/alsz_ote.hpp   | 3 +++
 mpc/ot/iknp_ote.hpp   | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/crypto/prg.hpp b/crypto/prg.hpp
index 2dd24f8..abf8c69 100644
--- a/crypto/prg.hpp
+++ b/crypto/prg.hpp
@@ -19,6 +19,9 @@ const char fixed_seed[] = "\x61\x7e\x8d\xa2\xa0\x51\x1e\x96\x5e\x41\xc2\x9b\x15\
 
 namespace PRG{
 
+using Serialization::operator<<; 
+using Serialization::operator>>; 
+
 struct Seed{ 
     size_t counter = 0; 
     AES::Key aes_key;
diff --git a/mpc/oprf/ddh_oprf.hpp b/mpc/oprf/ddh_oprf.hpp
index 6f7225a..199f972 100644
--- a/mpc/oprf/ddh_oprf.hpp
+++ b/mpc/oprf/ddh_oprf.hpp
@@ -11,6 +11,9 @@
 
 namespace DDHOPRF{
 
+using Serialization::operator<<; 
+using Serialization::operator>>; 
+
 
 /*
 ** the default domain element type is block, thus the default DOMAIN_SIZE is 16 bytes
diff --git a/mpc/ot/alsz_ote.hpp b/mpc/ot/alsz_ote.hpp
index fdda7e9..d504959 100644
--- a/mpc/ot/alsz_ote.hpp
+++ b/mpc/ot/alsz_ote.hpp
@@ -14,6 +14,9 @@ inline const size_t BASE_LEN = 128; // the default length of base OT
 
 namespace ALSZOTE{
 
+using Serialization::operator<<; 
+using Serialization::operator>>; 
+
 
 // check if the parameters are legal
 void CheckParameters(size_t ROW_NUM, size_t COLUMN_NUM)
diff --git a/mpc/ot/iknp_ote.hpp b/mpc/ot/iknp_ote.hpp
index 5530496..56094c5 100644
--- a/mpc/ot/iknp_ote.hpp
+++ b/mpc/ot/iknp_ote.hpp
@@ -11,6 +11,9 @@
 
 namespace IKNPOTE{
 
+using Serialization::operator<<; 
+using Serialization::operator>>; 
+
 
 // check if the parameters are legal
 void CheckParameters(size_t ROW_NUM, size_t COLUMN_NUM)
-- 
2.43.0


From 582a11b09c0ba2767920557d14be5bcd4f75cb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:57 +0000
Subject: [PATCH 17/53] fix: encryption-relation proof: bind the challenge to
 the statement and to all first-round messages

The ciphertexts and vec_G were not hashed, so vec_G could be chosen after the
challenge to make a proof of a false statement verify.
---
 zkp/nizk/nizk_enc_relation.hpp | 50 +++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/zkp/nizk/nizk_enc_relation.hpp b/zkp/nizk/nizk_enc_relation.hpp
index ffa08f2..d189743 100755
--- a/zkp/nizk/nizk_enc_relation.hpp
+++ b/zkp/nizk/nizk_enc_relation.hpp
@@ -82,6 +82,12 @@ Proof Prove(PP &pp, Instance &instance, Witness &witness, std::string &transcrip
     size_t N = instance.vec_CT.size();
     pp.m = log(N)/log(pp.n);
 
+    // initialize the transcript with instance
+    transcript_str += instance.ek.ToByteString(); 
+    for(auto i = 0; i < N; i++){
+        transcript_str += instance.vec_CT[i].X.ToByteString() + instance.vec_CT[i].Y.ToByteString(); 
+    }
+
     std::vector<size_t> vec_index_star = Decompose(witness.l, pp.n, pp.m);     
     
     // expand to 1-dimention vector
@@ -126,22 +132,6 @@ Proof Prove(PP &pp, Instance &instance, Witness &witness, std::string &transcrip
     }
     proof.D = Pedersen::Commit(pp.com_part, vec_d, rD);
 
-    transcript_str += proof.B.ToByteString(); 
-    transcript_str += proof.A.ToByteString();
-    transcript_str += proof.C.ToByteString();
-    transcript_str += proof.D.ToByteString(); 
-
-    // compute the challenge
-    BigInt x = Hash::StringToBigInt(transcript_str); // apply FS-transform to generate the challenge
-
-    // compute the response     
-    proof.vec_f.resize(pp.m * pp.n); 
-    for(auto i = 0; i < pp.m * pp.n; i++){
-        proof.vec_f[i] = vec_delta[i] * x + vec_a[i];
-    }
-    proof.zA = (rB * x + rA) % order; 
-    proof.zC = (rC * x + rD) % order; 
-
     std::vector<BigInt> vec_rho = GenRandomBigIntVectorLessThan(pp.m, order);
 
     proof.vec_G.resize(pp.m);
@@ -177,6 +167,25 @@ Proof Prove(PP &pp, Instance &instance, Witness &witness, std::string &transcrip
         proof.vec_G[k] = TwistedExponentialElGamal::HomoAdd(proof.vec_G[k], vec_mask_CT[k]);
     }
 
+    transcript_str += proof.B.ToByteString(); 
+    transcript_str += proof.A.ToByteString();
+    transcript_str += proof.C.ToByteString();
+    transcript_str += proof.D.ToByteString(); 
+    for(auto k = 0; k < pp.m; k++){
+        transcript_str += proof.vec_G[k].X.ToByteString() + proof.vec_G[k].Y.ToByteString(); 
+    }
+
+    // compute the challenge
+    BigInt x = Hash::StringToBigInt(transcript_str); // apply FS-transform to generate the challenge
+
+    // compute the response     
+    proof.vec_f.resize(pp.m * pp.n); 
+    for(auto i = 0; i < pp.m * pp.n; i++){
+        proof.vec_f[i] = vec_delta[i] * x + vec_a[i];
+    }
+    proof.zA = (rB * x + rA) % order; 
+    proof.zC = (rC * x + rD) % order; 
+
     std::vector<BigInt> exp_x(pp.m+1);
     exp_x[0] = bn_1;  
     for(auto k = 1; k <= pp.m; k++){
@@ -198,11 +207,20 @@ bool Verify(PP &pp, Instance &instance, std::string &transcript_str, Proof &proo
 {    
     size_t N = instance.vec_CT.size();
     pp.m = log(N)/log(pp.n);
+
+    // initialize the transcript with instance
+    transcript_str += instance.ek.ToByteString(); 
+    for(auto i = 0; i < N; i++){
+        transcript_str += instance.vec_CT[i].X.ToByteString() + instance.vec_CT[i].Y.ToByteString(); 
+    }
     
     transcript_str += proof.B.ToByteString(); 
     transcript_str += proof.A.ToByteString();
     transcript_str += proof.C.ToByteString();
     transcript_str += proof.D.ToByteString(); 
+    for(auto k = 0; k < pp.m; k++){
+        transcript_str += proof.vec_G[k].X.ToByteString() + proof.vec_G[k].Y.ToByteString(); 
+    }
 
     // compute the challenge
     BigInt x = Hash::StringToBigInt(transcript_str); // apply FS-transform to generate the challenge
-- 
2.43.0


From b0b7f8105190b4e94b9c989ec2b56585c8221b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:15 +0000
Subject: [PATCH 18/53] fix: encryption-relation proof: count the digits of N
 with integer arithmetic

log(N)/log(n) truncates to m-1 for e.g. N = 243, n = 3, and valid proofs were rejected.
---
 zkp/nizk/nizk_enc_relation.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/zkp/nizk/nizk_enc_relation.hpp b/zkp/nizk/nizk_enc_relation.hpp
index d189743..7553af4 100755
--- a/zkp/nizk/nizk_enc_relation.hpp
+++ b/zkp/nizk/nizk_enc_relation.hpp
@@ -53,6 +53,17 @@ struct Proof
 };
  
 
+// the largest m such that n^m <= N 
+size_t GetDigitNum(size_t N, size_t n)
+{
+    size_t m = 0; 
+    while(n > 1 && N >= n){
+        N = N / n; 
+        m++; 
+    }
+    return m; 
+}
+
 /* Setup algorithm */ 
 PP Setup(Pedersen::PP &com_pp, TwistedExponentialElGamal::PP &enc_pp, size_t n)
 { 
@@ -60,7 +71,7 @@ PP Setup(Pedersen::PP &com_pp, TwistedExponentialElGamal::PP &enc_pp, size_t n)
     pp.com_part = com_pp;
     pp.enc_part = enc_pp; 
     pp.n = n;
-    pp.m = log(pp.com_part.N_max)/log(pp.n); // the default value 
+    pp.m = GetDigitNum(pp.com_part.N_max, pp.n); // the default value 
 
     return pp; 
 }
@@ -80,7 +91,7 @@ Proof Prove(PP &pp, Instance &instance, Witness &witness, std::string &transcrip
 {    
     Proof proof;
     size_t N = instance.vec_CT.size();
-    pp.m = log(N)/log(pp.n);
+    pp.m = GetDigitNum(N, pp.n);
 
     // initialize the transcript with instance
     transcript_str += instance.ek.ToByteString(); 
@@ -206,7 +217,7 @@ Proof Prove(PP &pp, Instance &instance, Witness &witness, std::string &transcrip
 bool Verify(PP &pp, Instance &instance, std::string &transcript_str, Proof &proof)
 {    
     size_t N = instance.vec_CT.size();
-    pp.m = log(N)/log(pp.n);
+    pp.m = GetDigitNum(N, pp.n);
 
     // initialize the transcript with instance
     transcript_str += instance.ek.ToByteString(); 
-- 
2.43.0


From 622d341eef19c92e7572b8e7182802a0f6e81a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:15 +0000
Subject: [PATCH 19/53] fix: accountable ring signature: hash both ciphertexts
 into the challenge

ct_s was not hashed, so a signature could be forged without any secret key by
choosing z_s, z_t first and solving for ct_s.
---
 signature/accountable_ring_sig.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/signature/accountable_ring_sig.hpp b/signature/accountable_ring_sig.hpp
index 4149cec..822af2e 100644
--- a/signature/accountable_ring_sig.hpp
+++ b/signature/accountable_ring_sig.hpp
@@ -104,7 +104,9 @@ Signature Sign(PP &pp, BigInt &sk, std::vector<ECPoint> &vec_R, std::string &mes
     nizk_witness.r = r; 
     nizk_witness.l = l;
 
-    std::string transcript_str = message; 
+    // bind the challenge to the message and both ciphertexts
+    std::string transcript_str = message + sigma.ct_vk.X.ToByteString() + sigma.ct_vk.Y.ToByteString() 
+                               + sigma.ct_s.X.ToByteString() + sigma.ct_s.Y.ToByteString(); 
 
     sigma.correct_encryption_proof = EncRelation::Prove(nizk_pp, nizk_instance, nizk_witness, transcript_str); 
 
@@ -137,7 +139,8 @@ bool Verify(PP &pp, std::vector<ECPoint> &vec_R, std::string &message, Signature
     
     std::vector<bool> vec_condition(2, true); 
 
-    std::string transcript_str = message;     
+    std::string transcript_str = message + sigma.ct_vk.X.ToByteString() + sigma.ct_vk.Y.ToByteString() 
+                               + sigma.ct_s.X.ToByteString() + sigma.ct_s.Y.ToByteString(); 
     vec_condition[0] = EncRelation::Verify(nizk_pp, nizk_instance, transcript_str, sigma.correct_encryption_proof); 
 
     BigInt x = Hash::StringToBigInt(transcript_str);
-- 
2.43.0


From 5e089f8a11925288a15374908e5d3d4ccc636bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:31 +0000
Subject: [PATCH 20/53] fix: Bulletproofs: hash the commitments into the
 challenges

Otherwise a commitment to an out-of-range value can be solved for after the
challenges are known (weak Fiat-Shamir).
---
 zkp/bulletproofs/bullet_proof.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/zkp/bulletproofs/bullet_proof.hpp b/zkp/bulletproofs/bullet_proof.hpp
index f87091e..bb5511e 100755
--- a/zkp/bulletproofs/bullet_proof.hpp
+++ b/zkp/bulletproofs/bullet_proof.hpp
@@ -194,6 +194,9 @@ void Prove(PP &pp, Instance &instance, Witness &witness, std::string &transcript
     proof.S = ECPointVectorMul(vec_A, vec_a); // Eq (47) 
 
     // Eq (49, 50) compute y and z
+    for(auto i = 0; i < instance.C.size(); i++){
+        transcript_str += instance.C[i].ToByteString(); 
+    }
     transcript_str += proof.A.ToByteString(); 
     BigInt y = Hash::StringToBigInt(transcript_str);
 
@@ -338,6 +341,9 @@ bool Verify(PP &pp, Instance &instance, std::string &transcript_str, Proof &proo
 
     bool V1, V2, Validity; // variables for checking results
 
+    for(auto i = 0; i < instance.C.size(); i++){
+        transcript_str += instance.C[i].ToByteString(); 
+    }
     transcript_str += proof.A.ToByteString(); 
     BigInt y = Hash::StringToBigInt(transcript_str);  //recover the challenge y
     BigInt y_inverse = y.ModInverse(order);  
@@ -493,6 +499,9 @@ bool FastVerify(const PP &pp, Instance &instance, std::string &transcript_str, P
     #endif
 
     // prepare Eq (97)
+    for(auto i = 0; i < instance.C.size(); i++){
+        transcript_str += instance.C[i].ToByteString(); 
+    }
     transcript_str += proof.A.ToByteString(); 
     BigInt y = Hash::StringToBigInt(transcript_str);  //recover the challenge y
     BigInt y_inverse = y.ModInverse(order); 
-- 
2.43.0


From 72ea6f55760346614f65f492b204ab74dde2547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:31 +0000
Subject: [PATCH 21/53] fix: inner-product proof: start from an empty proof
 when the object is reused

---
 zkp/bulletproofs/innerproduct_proof.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/zkp/bulletproofs/innerproduct_proof.hpp b/zkp/bulletproofs/innerproduct_proof.hpp
index 2d600ec..ac97d97 100755
--- a/zkp/bulletproofs/innerproduct_proof.hpp
+++ b/zkp/bulletproofs/innerproduct_proof.hpp
@@ -190,7 +190,7 @@ PP Setup(size_t VECTOR_LEN, bool INITIAL_FLAG)
     Generate an argument PI for Relation 3 on pp.13: P = g^a h^b u^<a,b> 
     transcript_str is introduced to be used as a sub-protocol 
 */
-void Prove(PP pp, Instance instance, Witness witness, std::string &transcript_str, Proof &proof)
+void ProveRounds(PP pp, Instance instance, Witness witness, std::string &transcript_str, Proof &proof)
 {
     if (pp.vec_g.size()!=pp.vec_h.size()) 
     {
@@ -323,10 +323,18 @@ void Prove(PP pp, Instance instance, Witness witness, std::string &transcript_st
         witness_sub.vec_b = BigIntVectorModAdd(vec_bL, vec_bR, BigInt(order)); // Eq (34)
 
         // recursively invoke the InnerProduct proof
-        Prove(pp_sub, instance_sub, witness_sub, transcript_str, proof); 
+        ProveRounds(pp_sub, instance_sub, witness_sub, transcript_str, proof); 
     }
 }
 
+void Prove(PP pp, Instance instance, Witness witness, std::string &transcript_str, Proof &proof)
+{
+    // the rounds append to the proof: drop what a previous run left in it
+    proof.vec_L.clear(); 
+    proof.vec_R.clear(); 
+    ProveRounds(pp, instance, witness, transcript_str, proof); 
+}
+
 /* Check if PI is a valid proof for inner product statement (G1^w = H1 and G2^w = H2) */
 bool Verify(PP &pp, Instance &instance, std::string &transcript_str, Proof &proof)
 {
-- 
2.43.0


From 41727d1f1bd94ce62f49d1a87338a8e02753eedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:31 +0000
Subject: [PATCH 22/53] fix: plaintext-equality proof: byte string covers the
 whole proof

---
 zkp/nizk/nizk_plaintext_equality.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zkp/nizk/nizk_plaintext_equality.hpp b/zkp/nizk/nizk_plaintext_equality.hpp
index 90921cb..ac74b66 100755
--- a/zkp/nizk/nizk_plaintext_equality.hpp
+++ b/zkp/nizk/nizk_plaintext_equality.hpp
@@ -105,9 +105,9 @@ std::string ProofToByteString(Proof &proof)
     for(auto i = 0; i < proof.vec_A.size(); i++){
         str += proof.vec_A[i].ToByteString();
     }
-    proof.B.ToByteString(); 
-    proof.z.ToByteString(); 
-    proof.t.ToByteString(); 
+    str += proof.B.ToByteString(); 
+    str += proof.z.ToByteString(); 
+    str += proof.t.ToByteString(); 
     return str; 
 } 
 
-- 
2.43.0


From d23371ec6458d51c59588e3958c930332e09bf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:16 +0000
Subject: [PATCH 23/53] fix: network channel: separate streams for sending and
 receiving

---
 netio/stream_channel.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/netio/stream_channel.hpp b/netio/stream_channel.hpp
index 3860344..bee5b77 100644
--- a/netio/stream_channel.hpp
+++ b/netio/stream_channel.hpp
@@ -25,8 +25,10 @@ public:
 	bool IS_SERVER;
 	int server_master_socket = -1; 
 	int connect_socket = -1;
-	FILE *stream = nullptr; 
+	FILE *stream = nullptr;         // send direction 
 	char *buffer = nullptr; 
+	FILE *receive_stream = nullptr; // receive direction
+	char *receive_buffer = nullptr; 
 
 	std::string address;
 	int port;
@@ -167,11 +169,20 @@ NetIO::NetIO(std::string party, std::string address, int port)
 	
 	SetNodelay(); 
 
-	// very impprotant: bind the socket to a file stream
-	stream = fdopen(this->connect_socket, "wb+"); 
+	/* 
+	** very impprotant: bind the socket to file streams
+	** each direction has its own stream: a stream used for both directions can not write 
+	** while received bytes are still waiting in its buffer (a socket is not seekable)
+	*/ 
+	stream = fdopen(this->connect_socket, "wb"); 
 	buffer = new char[NETWORK_BUFFER_SIZE];
 	memset(buffer, 0, NETWORK_BUFFER_SIZE);
 	setvbuf(stream, buffer, _IOFBF, NETWORK_BUFFER_SIZE); // Specifies a buffer for stream
+
+	receive_stream = fdopen(dup(this->connect_socket), "rb"); 
+	receive_buffer = new char[NETWORK_BUFFER_SIZE];
+	memset(receive_buffer, 0, NETWORK_BUFFER_SIZE);
+	setvbuf(receive_stream, receive_buffer, _IOFBF, NETWORK_BUFFER_SIZE); 
 }
 
 
@@ -219,7 +230,7 @@ void NetIO::ReceiveDataInternal(const void *data, size_t LEN)
 	size_t HAVE_RECEIVE_LEN = 0;
 	// continue receive data to stream until all reach the desired LEN
 	while(HAVE_RECEIVE_LEN < LEN) {
-		size_t RECEIVE_LEN = fread((char*)data+HAVE_RECEIVE_LEN, 1, LEN-HAVE_RECEIVE_LEN, stream);
+		size_t RECEIVE_LEN = fread((char*)data+HAVE_RECEIVE_LEN, 1, LEN-HAVE_RECEIVE_LEN, receive_stream);
 		if (RECEIVE_LEN >= 0) HAVE_RECEIVE_LEN+=RECEIVE_LEN;
 		else fprintf(stderr, "error: fail to receive data %zu\n", RECEIVE_LEN);
 	}
-- 
2.43.0


From f14ca4dcc2b5680df9d1a7f8091ad7966a9719a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:16 +0000
Subject: [PATCH 24/53] fix: network channel: report a closed or broken
 connection instead of looping forever

---
 netio/stream_channel.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/netio/stream_channel.hpp b/netio/stream_channel.hpp
index bee5b77..468643d 100644
--- a/netio/stream_channel.hpp
+++ b/netio/stream_channel.hpp
@@ -214,8 +214,11 @@ void NetIO::SendDataInternal(const void *data, size_t LEN)
 	// continue write data to stream until all reach the desired LEN
 	while(HAVE_SENT_LEN < LEN) {
 		size_t SENT_LEN = fwrite((char*)data+HAVE_SENT_LEN, 1, LEN-HAVE_SENT_LEN, stream);
-		if (SENT_LEN >= 0) HAVE_SENT_LEN+=SENT_LEN;
-		else fprintf(stderr, "error: fail to send data %zu\n", SENT_LEN);
+		if (SENT_LEN > 0) HAVE_SENT_LEN+=SENT_LEN;
+		else{
+			fprintf(stderr, "error: fail to send data %zu\n", SENT_LEN);
+			exit(EXIT_FAILURE);
+		}
 	}
 	/* 
 	** very important: 
@@ -231,8 +234,12 @@ void NetIO::ReceiveDataInternal(const void *data, size_t LEN)
 	// continue receive data to stream until all reach the desired LEN
 	while(HAVE_RECEIVE_LEN < LEN) {
 		size_t RECEIVE_LEN = fread((char*)data+HAVE_RECEIVE_LEN, 1, LEN-HAVE_RECEIVE_LEN, receive_stream);
-		if (RECEIVE_LEN >= 0) HAVE_RECEIVE_LEN+=RECEIVE_LEN;
-		else fprintf(stderr, "error: fail to receive data %zu\n", RECEIVE_LEN);
+		if (RECEIVE_LEN > 0) HAVE_RECEIVE_LEN+=RECEIVE_LEN;
+		else{
+			// the connection is closed or broken
+			fprintf(stderr, "error: fail to receive data %zu\n", RECEIVE_LEN);
+			exit(EXIT_FAILURE);
+		}
 	}
 }
 
-- 
2.43.0


From 1e5ad69efb9ee704d4d2fa7c490df3a4aa540520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:16 +0000
Subject: [PATCH 25/53] fix: network channel: sending an empty vector of byte
 strings

---
 netio/stream_channel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netio/stream_channel.hpp b/netio/stream_channel.hpp
index 468643d..27f41c4 100644
--- a/netio/stream_channel.hpp
+++ b/netio/stream_channel.hpp
@@ -449,7 +449,7 @@ void NetIO::ReceiveBlock(block &a)
 void NetIO::SendBytesVector(const std::vector<std::vector<uint8_t>>& A) 
 {
 	size_t NUM = A.size(); 
-	size_t LEN = A[0].size(); 
+	size_t LEN = A.empty() ? 0 : A[0].size(); 
 	SendInteger(NUM);
 	SendInteger(LEN);  
 
-- 
2.43.0


From 2a6c2f707e804bf914ddfc9e153d3b3670b680ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:24 +0000
Subject: [PATCH 26/53] fix: ALSZ OT extension: Setup ignores the requested
 number of base transfers

---
 mpc/ot/alsz_ote.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpc/ot/alsz_ote.hpp b/mpc/ot/alsz_ote.hpp
index d504959..13e20a0 100644
--- a/mpc/ot/alsz_ote.hpp
+++ b/mpc/ot/alsz_ote.hpp
@@ -66,6 +66,7 @@ PP Setup(size_t BASE_LEN)
     PP pp; 
     pp.malicious = 0; 
     pp.baseOT = NPOT::Setup();
+    pp.BASE_LEN = BASE_LEN; 
     return pp;
 }
 
-- 
2.43.0


From 7e54ff98f8bb472acc93ae2046d1b4c9c986d855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:23 +0000
Subject: [PATCH 27/53] fix: VOLE: do not read OT parameters from a file that
 another party or run may be writing

---
 mpc/vole/basevole.hpp | 40 ++++------------------------------------
 mpc/vole/vole.hpp     | 24 ++++--------------------
 2 files changed, 8 insertions(+), 56 deletions(-)

diff --git a/mpc/vole/basevole.hpp b/mpc/vole/basevole.hpp
index 6702a40..18d24d7 100644
--- a/mpc/vole/basevole.hpp
+++ b/mpc/vole/basevole.hpp
@@ -56,15 +56,7 @@ namespace VOLE {
 		std::vector<block> vec_k1 = PRG::GenRandomBlocks(seed_k, 128);
 		
 		// send vec_k0,vec_k1 to OT 
-		std::string pp_filename = "npot.pp";
-		NPOT::PP pp; 
-    		if(!FileExist(pp_filename)){
-        		pp = NPOT::Setup(); 
-        		NPOT::SavePP(pp, pp_filename); 
-    		}
-    		else{
-        	 	NPOT::FetchPP(pp, pp_filename); 
-    		}
+		NPOT::PP pp = NPOT::Setup(); 
 
 		
 		Send(io, pp, vec_k0, vec_k1, 128);
@@ -156,15 +148,7 @@ namespace VOLE {
 		}
 
 		// use vec_delta_bit to receive 128 K from OT 
-		std::string pp_filename = "npot.pp";
-		NPOT::PP pp;
-    		if(!FileExist(pp_filename)){
-        		pp = NPOT::Setup(); 
-        		NPOT::SavePP(pp, pp_filename); 
-    		}
-    		else{
-        		NPOT::FetchPP(pp, pp_filename); 
-    		}
+		NPOT::PP pp = NPOT::Setup(); 
 		
 		std::vector<block> vec_k = Receive(io, pp, vec_delta_bit, 128);
 		
@@ -216,15 +200,7 @@ namespace VOLE {
 		std::vector<block> vec_k1 = PRG::GenRandomBlocks(seed_k, EXTEND_LEN);
 		
 		// send vec_k0,vec_k1 to OT 
-		ALSZOTE::PP pp;
-		std::string pp_filename = "alszote.pp"; 
-    		if(!FileExist(pp_filename)){
-        		pp = ALSZOTE::Setup(BASE_LEN); 
-        		ALSZOTE::SavePP(pp, pp_filename); 
-    		}
-    		else{
-        		ALSZOTE::FetchPP(pp, pp_filename);
-    		}
+		ALSZOTE::PP pp = ALSZOTE::Setup(BASE_LEN); 
 
 		
 		ALSZOTE::Send(server_io, pp, vec_k0, vec_k1, EXTEND_LEN);
@@ -306,15 +282,7 @@ namespace VOLE {
 		}
 
 		// use vec_delta_bit to receive 128 K from OT 
-		ALSZOTE::PP pp;
-		std::string pp_filename = "alszote.pp"; 
-    		if(!FileExist(pp_filename)){
-        		pp = ALSZOTE::Setup(BASE_LEN); 
-        		ALSZOTE::SavePP(pp, pp_filename); 
-    		}
-    		else{
-        		ALSZOTE::FetchPP(pp, pp_filename);
-    		}
+		ALSZOTE::PP pp = ALSZOTE::Setup(BASE_LEN); 
 		std::vector<block> vec_k = ALSZOTE::Receive(client_io, pp, vec_select_bit, EXTEND_LEN);
 		
 		// set fixed seed for PRG 
diff --git a/mpc/vole/vole.hpp b/mpc/vole/vole.hpp
index 5237363..6c4e106 100644
--- a/mpc/vole/vole.hpp
+++ b/mpc/vole/vole.hpp
@@ -145,16 +145,8 @@ namespace VOLE {
 			EXTEND_LEN = selection_len + add_mod;
 		}
 		else{EXTEND_LEN = selection_len;}
-    		std::string pp_filename = "alszote.pp"; 
-    		ALSZOTE::PP pp; 
-    		size_t BASE_LEN = 128;
-    		if(!FileExist(pp_filename)){
-        		pp = ALSZOTE::Setup(BASE_LEN); 
-        		ALSZOTE::SavePP(pp, pp_filename); 
-    		}
-    		else{
-        		ALSZOTE::FetchPP(pp, pp_filename);
-    		}
+		size_t BASE_LEN = 128;
+		ALSZOTE::PP pp = ALSZOTE::Setup(BASE_LEN); 
     		ALSZOTE::Send(server_io, pp, vec_m0, vec_m1, EXTEND_LEN);
 
         	
@@ -221,16 +213,8 @@ namespace VOLE {
 		
 		// receive vec_total_m by vec_select_bit
 		std::vector<block> vec_total_m;
-    		std::string pp_filename = "alszote.pp"; 
-    		ALSZOTE::PP pp; 
-    		size_t BASE_LEN = 128;
-    		if(!FileExist(pp_filename)){
-        		pp = ALSZOTE::Setup(BASE_LEN); 
-        		ALSZOTE::SavePP(pp, pp_filename); 
-    		}
-    		else{
-        		ALSZOTE::FetchPP(pp, pp_filename);
-    		} 	
+		size_t BASE_LEN = 128;
+		ALSZOTE::PP pp = ALSZOTE::Setup(BASE_LEN); 
 		uint64_t EXTEND_LEN;
 		if(select_len % 128){
 			uint64_t add_mod =128 - (select_len % 128);
-- 
2.43.0


From a79e6dc921713a73fbf6575f86bdbec28dba0138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:24 +0000
Subject: [PATCH 28/53] fix: VOLE: OT inputs shorter than the padded OT length
 are read out of bounds

---
 mpc/vole/vole.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpc/vole/vole.hpp b/mpc/vole/vole.hpp
index 6c4e106..1245e23 100644
--- a/mpc/vole/vole.hpp
+++ b/mpc/vole/vole.hpp
@@ -147,6 +147,9 @@ namespace VOLE {
 		else{EXTEND_LEN = selection_len;}
 		size_t BASE_LEN = 128;
 		ALSZOTE::PP pp = ALSZOTE::Setup(BASE_LEN); 
+    		// pad to the length of the OT extension
+    		vec_m0.resize(EXTEND_LEN, Block::zero_block);
+    		vec_m1.resize(EXTEND_LEN, Block::zero_block);
     		ALSZOTE::Send(server_io, pp, vec_m0, vec_m1, EXTEND_LEN);
 
         	
@@ -219,7 +222,7 @@ namespace VOLE {
 		if(select_len % 128){
 			uint64_t add_mod =128 - (select_len % 128);
 			EXTEND_LEN = select_len + add_mod;
-			
+			vec_select_bit.resize(EXTEND_LEN, 0);
 			vec_total_m = ALSZOTE::Receive(client_io, pp, vec_select_bit, EXTEND_LEN);
 			vec_total_m.resize(select_len);
 		}
-- 
2.43.0


From 30af0b750b6d95deed54bfbf740eec28d72bf3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:11 +0000
Subject: [PATCH 29/53] fix: OKVS: randomised encoding does not terminate when
 the store has more columns than the index type can count

---
 mpc/okvs/paxos.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpc/okvs/paxos.hpp b/mpc/okvs/paxos.hpp
index 4a33f76..edbc201 100644
--- a/mpc/okvs/paxos.hpp
+++ b/mpc/okvs/paxos.hpp
@@ -1349,7 +1349,7 @@ void OKVS<idx_type, dense_type, value_type>::backfill_BlockArrayValue128(value_t
    else if (prng)
    {
       auto random_blocks = PRG::GenRandomBlocks(*prng, dense_size*valuetype_len);
-      for (idx_type i = sparse_size; i < total_size; ++i)
+      for (uint64_t i = sparse_size; i < total_size; ++i)
          output[i] = ((value_type*)(&random_blocks[0]))[i - sparse_size];
    }
 
@@ -1473,7 +1473,7 @@ void OKVS<idx_type, dense_type, value_type>::backfill_gf128(block *values, block
    else if (prng)
    {
       auto random_blocks = PRG::GenRandomBlocks(*prng, dense_size);
-      for (idx_type i = sparse_size; i < total_size; ++i)
+      for (uint64_t i = sparse_size; i < total_size; ++i)
          output[i] = random_blocks[i - sparse_size];
    }
 
@@ -1596,7 +1596,7 @@ void OKVS<idx_type, dense_type, value_type>::backfill_binary(value_type *values,
          // Randomize all unknowns for unselected columns
          std::vector<block> random_blocks(PRG::GenRandomBlocks(*prng, dense_size - g));
          auto iter = 0;
-         for (auto i = sparse_size; i < total_size; i++)
+         for (uint64_t i = sparse_size; i < total_size; i++)
          {
             if (gap_cols_set.find(i - sparse_size) == gap_cols_set.end())
             {
-- 
2.43.0


From 4ed27afbe2bf4700997233a77cf06e82368d15b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:11 +0000
Subject: [PATCH 30/53] fix: OKVS: decoding more keys than the index type can
 count drops keys

---
 mpc/okvs/paxos.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpc/okvs/paxos.hpp b/mpc/okvs/paxos.hpp
index edbc201..1cd4cec 100644
--- a/mpc/okvs/paxos.hpp
+++ b/mpc/okvs/paxos.hpp
@@ -346,7 +346,7 @@ public:
    std::vector<value_type> decode(const std::vector<block> &keys, const std::vector<value_type> &output, block *with_dense = nullptr);
 
    // decode for keys
-   void decode(const block *keys, const idx_type key_num, const value_type *output, value_type *values, block *with_dense = nullptr);
+   void decode(const block *keys, const uint64_t key_num, const value_type *output, value_type *values, block *with_dense = nullptr);
 
    // A fast method for performing modulo 32.
    void mod32(uint64_t *vals, const uint64_t modIdx)
@@ -2329,14 +2329,14 @@ inline void OKVS<idx_type, dense_type, value_type>::decode_32(const block *keys,
 }
 
 template <typename idx_type, DenseType dense_type, typename value_type>
-inline void OKVS<idx_type, dense_type, value_type>::decode(const block *keys, const idx_type key_num, const value_type *output, value_type *values, block *with_dense)
+inline void OKVS<idx_type, dense_type, value_type>::decode(const block *keys, const uint64_t key_num, const value_type *output, value_type *values, block *with_dense)
 {
    if (sparse_size == 0)
    {
       throw "You need to init OKVS or just sparse_size first.";
    }
    is_decoding = true;
-   idx_type i = 0;
+   uint64_t i = 0;
    block *key_iter = (block *)keys;
    value_type *value_iter = values;
    for (; i + 32 <= key_num; i += 32)
-- 
2.43.0


From 26dc50a9fc241f048a4b601fe322380fe344b632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:11 +0000
Subject: [PATCH 31/53] fix: Baxos: a thread with fewer than 32 keys reads and
 writes out of bounds

---
 mpc/okvs/baxos.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpc/okvs/baxos.hpp b/mpc/okvs/baxos.hpp
index 5da7ab8..a21e36a 100644
--- a/mpc/okvs/baxos.hpp
+++ b/mpc/okvs/baxos.hpp
@@ -180,8 +180,7 @@ inline void Baxos<dense_type, value_type>::impl_solve(const std::vector<block> &
             std::array<uint64_t, 32> bin_idxes;
             uint64_t i = 0;
             auto idx = begin;
-            auto main_bound = len - 32;
-            for (; i <= main_bound; i += 32, keys_thread_pointer += 32)
+            for (; i + 32 <= len; i += 32, keys_thread_pointer += 32)
             {
                 // assert(keys_thread_pointer == keys_data + begin + i);
                 AES::FastECBEnc(seed.aes_key, keys_thread_pointer, 32, hashes.data());
-- 
2.43.0


From 581c0d62f1eefa3fb47acd55c6d35cb290bbd1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:11 +0000
Subject: [PATCH 32/53] fix: Baxos: more than 255 bins overflow the bin index

---
 mpc/okvs/baxos.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpc/okvs/baxos.hpp b/mpc/okvs/baxos.hpp
index a21e36a..e6dd0bd 100644
--- a/mpc/okvs/baxos.hpp
+++ b/mpc/okvs/baxos.hpp
@@ -135,21 +135,21 @@ inline void Baxos<dense_type, value_type>::impl_solve(const std::vector<block> &
                 -----------------------------------------------------------------------------------------------
         */
 
-        auto get_item_bin_thread = [&](uint8_t bin_idx, uint8_t thread_idx)
+        auto get_item_bin_thread = [&](uint64_t bin_idx, uint8_t thread_idx)
         {
             auto bin_begin = bin_idx * bin_size_all_thread;
             auto thread_begin = thread_idx * bin_size_per_thread;
 
             return item_to_bin_thread.get() + bin_begin + thread_begin;
         };
-        auto get_value_bin_thread = [&](uint8_t bin_idx, uint8_t thread_idx)
+        auto get_value_bin_thread = [&](uint64_t bin_idx, uint8_t thread_idx)
         {
             auto bin_begin = bin_idx * bin_size_all_thread;
             auto thread_begin = thread_idx * bin_size_per_thread;
 
             return value_to_bin_thread.get() + bin_begin + thread_begin;
         };
-        auto get_hash_bin_thread = [&](uint8_t bin_idx, uint8_t thread_idx)
+        auto get_hash_bin_thread = [&](uint64_t bin_idx, uint8_t thread_idx)
         {
             auto bin_begin = bin_idx * bin_size_all_thread;
             auto thread_begin = thread_idx * bin_size_per_thread;
@@ -233,7 +233,7 @@ inline void Baxos<dense_type, value_type>::impl_solve(const std::vector<block> &
 
             // Use different threads to process each bin.
             uint8_t thread_id = omp_get_thread_num();
-            for (auto bin_idx = thread_id; bin_idx < bin_num; bin_idx += thread_num)
+            for (uint64_t bin_idx = thread_id; bin_idx < bin_num; bin_idx += thread_num)
             {
                 uint32_t bin_size = 0;
                 for (auto bin_size_thread_bin : bin_size_thread)
-- 
2.43.0


From 8cbd8fd4e02f087b13955e4817adfb96d01bb373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:11 +0000
Subject: [PATCH 33/53] fix: Baxos: the encoder's self-check reads an
 uninitialised key index

---
 mpc/okvs/baxos.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mpc/okvs/baxos.hpp b/mpc/okvs/baxos.hpp
index e6dd0bd..210a40a 100644
--- a/mpc/okvs/baxos.hpp
+++ b/mpc/okvs/baxos.hpp
@@ -326,8 +326,6 @@ inline void Baxos<dense_type, value_type>::impl_solve(const std::vector<block> &
                 std::vector<value_type> temp(total_size);
                 memcpy(temp.data(), output_pointer, total_size * sizeof(value_type));
                 std::vector<value_type> v2(bin_size);
-                block t;
-                paxos.decode(&keys[get_item_bin_thread(bin_idx, thread_id)[0]], 1, output_pointer,values_pointer, &t);
                 paxos.decode(0, bin_size, output_pointer, v2.data(), paxos.h_dense);
                 // std::cout << bin_size << "  " << output_pointer << " " << bin_idx << " " << Block::BlockToInt64(output_pointer[0])
                 //           << " " << Block::BlockToInt64(values_pointer[bin_size - 1]) << " " << paxos.h_sparse[bin_size - 1][0] << std::endl;
-- 
2.43.0


From 8ef408c8cbf33fad0f272ef09023888e2887b76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:56 +0000
Subject: [PATCH 34/53] fix: OKVS: the size of a bin is interpolated with the
 weights the wrong way round

---
 mpc/okvs/okvs_utility.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpc/okvs/okvs_utility.hpp b/mpc/okvs/okvs_utility.hpp
index d12aa89..7342975 100644
--- a/mpc/okvs/okvs_utility.hpp
+++ b/mpc/okvs/okvs_utility.hpp
@@ -764,10 +764,10 @@ inline uint64_t hashtable_bin_size(uint64_t bin_num, uint64_t item_num, uint8_t
 
     if (bin_num_high < sizes.size() && item_num_high < sizes[bin_num_high].size())
     {
-        auto a0 = (bin_diff)*sizes[bin_num_low][item_num_low] + (1 - bin_diff) * sizes[bin_num_high][item_num_low];
-        auto a1 = (bin_diff)*sizes[bin_num_low][item_num_high] + (1 - bin_diff) * sizes[bin_num_high][item_num_high];
+        auto a0 = (1 - bin_diff) * sizes[bin_num_low][item_num_low] + bin_diff * sizes[bin_num_high][item_num_low];
+        auto a1 = (1 - bin_diff) * sizes[bin_num_low][item_num_high] + bin_diff * sizes[bin_num_high][item_num_high];
 
-        auto b0 = (item_diff)*a0 + (1 - item_diff) * a1;
+        auto b0 = (1 - item_diff) * a0 + item_diff * a1;
 
         auto B = std::ceil(std::pow(2, b0));
         return B;
-- 
2.43.0


From b7f300a70fbc2bbb97b13fe3a2693ef062a89b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:08 +0000
Subject: [PATCH 35/53] fix: OTE-based OPRF: evaluating twice with the same
 parameters gives different values

---
 mpc/oprf/ote_oprf.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpc/oprf/ote_oprf.hpp b/mpc/oprf/ote_oprf.hpp
index 182289f..b88d662 100644
--- a/mpc/oprf/ote_oprf.hpp
+++ b/mpc/oprf/ote_oprf.hpp
@@ -315,7 +315,8 @@ std::vector<std::vector<uint8_t>> Evaluate(PP &pp, std::vector<uint8_t> &key, st
 
     // aes_key_num = t + 1 (t in page 17)
     size_t aes_key_num = (pp.MATRIX_WIDTH / split_bucket_size) + 2;
-    std::vector<block> vec_salt = PRG::GenRandomBlocks(pp.common_seed, aes_key_num);
+    PRG::Seed salt_seed = pp.common_seed; // leave pp unchanged, so that every evaluation uses the same salts
+    std::vector<block> vec_salt = PRG::GenRandomBlocks(salt_seed, aes_key_num);
 
     std::vector<block> vec_Encode_X = Encode(vec_X, vec_salt[0]);
 
@@ -397,7 +398,8 @@ std::vector<std::vector<uint8_t>> Client(NetIO &io, PP &pp, std::vector<block> &
 
     // aes_key_num = t + 1 (t in page 17)
     size_t aes_key_num = (pp.MATRIX_WIDTH / split_bucket_size) + 2;
-    std::vector<block> vec_keysalt = PRG::GenRandomBlocks(pp.common_seed, aes_key_num); // AES keys used
+    PRG::Seed salt_seed = pp.common_seed; // leave pp unchanged, so that every evaluation uses the same salts
+    std::vector<block> vec_keysalt = PRG::GenRandomBlocks(salt_seed, aes_key_num); // AES keys used
 
     std::vector<block> vec_Encode_Y = Encode(vec_Y, vec_keysalt[0]);
 
-- 
2.43.0


From 1e3ad6dfdb8d7f914ec5d00621e693b6d14f98dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:16 +0000
Subject: [PATCH 36/53] fix: OTE-based OPRF: the OPRF key and the client's
 masks come from a constant seed

---
 mpc/oprf/ote_oprf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpc/oprf/ote_oprf.hpp b/mpc/oprf/ote_oprf.hpp
index b88d662..d43cfb1 100644
--- a/mpc/oprf/ote_oprf.hpp
+++ b/mpc/oprf/ote_oprf.hpp
@@ -246,7 +246,7 @@ std::vector<uint8_t> Server(NetIO &io, PP &pp)
     auto start_time = std::chrono::steady_clock::now(); 
 
     /* step 1: base OT (page 10 figure 4 item1) */
-    PRG::Seed seed = PRG::SetSeed(fixed_seed, 0);
+    PRG::Seed seed = PRG::SetSeed();
 	
     std::vector<uint8_t> vec_selection_bit = GenRandomBits(seed, pp.MATRIX_WIDTH); 
 
@@ -386,7 +386,7 @@ std::vector<std::vector<uint8_t>> Client(NetIO &io, PP &pp, std::vector<block> &
     auto start_time = std::chrono::steady_clock::now(); 
     
     /* step 1: base OT (page 10 figure 4 item1) */
-    PRG::Seed seed = PRG::SetSeed(fixed_seed, 0); 
+    PRG::Seed seed = PRG::SetSeed(); 
     std::vector<block> vec_K0 = PRG::GenRandomBlocks(seed, pp.MATRIX_WIDTH);
     std::vector<block> vec_K1 = PRG::GenRandomBlocks(seed, pp.MATRIX_WIDTH);
 
-- 
2.43.0


From f01af85c2da4a4969ab425ff6c96449933c46605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:16 +0000
Subject: [PATCH 37/53] fix: cwPRF-based PSI: both parties' secret keys come
 from a constant seed

---
 mpc/psi/cwprf_psi.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpc/psi/cwprf_psi.hpp b/mpc/psi/cwprf_psi.hpp
index 87f5251..29f9b4d 100644
--- a/mpc/psi/cwprf_psi.hpp
+++ b/mpc/psi/cwprf_psi.hpp
@@ -128,7 +128,7 @@ void Send(NetIO &io, PP &pp, std::vector<block> &vec_Y)
     auto start_time = std::chrono::steady_clock::now(); 
 
     uint8_t k1[32];
-    PRG::Seed seed = PRG::SetSeed(fixed_seed, 0); // initialize PRG
+    PRG::Seed seed = PRG::SetSeed(); // initialize PRG
     GenRandomBytes(seed, k1, 32);  // pick a key k1
 
     std::vector<EC25519Point> vec_Hash_Y(pp.SENDER_ITEM_NUM);
@@ -183,7 +183,7 @@ std::vector<block> Receive(NetIO &io, PP &pp, std::vector<block> &vec_X)
     auto start_time = std::chrono::steady_clock::now(); 
 
     uint8_t k2[32];
-    PRG::Seed seed = PRG::SetSeed(fixed_seed, 0); // initialize PRG
+    PRG::Seed seed = PRG::SetSeed(); // initialize PRG
     GenRandomBytes(seed, k2, 32);  // pick a key k2
 
     std::vector<EC25519Point> vec_Hash_X(pp.RECEIVER_ITEM_NUM); 
-- 
2.43.0


From 72aa8cf5640f335ba31a61bc7222c8b0f75bc82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:16 +0000
Subject: [PATCH 38/53] fix: cwPRF-based mqRPMT: both parties' secret keys come
 from a constant seed

---
 mpc/rpmt/cwprf_mqrpmt.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpc/rpmt/cwprf_mqrpmt.hpp b/mpc/rpmt/cwprf_mqrpmt.hpp
index 3f50b4a..69dd057 100644
--- a/mpc/rpmt/cwprf_mqrpmt.hpp
+++ b/mpc/rpmt/cwprf_mqrpmt.hpp
@@ -250,7 +250,7 @@ std::vector<uint8_t> Server(NetIO &io, PP &pp, std::vector<block> &vec_Y)
     auto start_time = std::chrono::steady_clock::now(); 
 
     std::vector<uint8_t> k1(32);
-    PRG::Seed seed = PRG::SetSeed(fixed_seed, 0); // initialize PRG
+    PRG::Seed seed = PRG::SetSeed(); // initialize PRG
     GenRandomBytes(seed, k1.data(), 32);  // pick a key k1
 
     std::vector<EC25519Point> vec_Hash_Y(pp.SERVER_LEN);
@@ -327,7 +327,7 @@ void Client(NetIO &io, PP &pp, std::vector<block> &vec_X)
     auto start_time = std::chrono::steady_clock::now(); 
 
     std::vector<uint8_t> k2(32);
-    PRG::Seed seed = PRG::SetSeed(fixed_seed, 0); // initialize PRG
+    PRG::Seed seed = PRG::SetSeed(); // initialize PRG
     GenRandomBytes(seed, k2.data(), 32);  // pick a key k2
 
     std::vector<EC25519Point> vec_Hash_X(pp.CLIENT_LEN); 
-- 
2.43.0


From e39054edc7f85c6c970597dfe6701ad83d613e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:14 +0000
Subject: [PATCH 39/53] fix: VOLE-based OPRF: the encoding of the client's set
 is all zero, so the client learns the key

---
 mpc/oprf/vole_oprf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpc/oprf/vole_oprf.hpp b/mpc/oprf/vole_oprf.hpp
index 0f5c8d7..7e0787c 100644
--- a/mpc/oprf/vole_oprf.hpp
+++ b/mpc/oprf/vole_oprf.hpp
@@ -110,7 +110,7 @@ namespace VOLEOPRF
         std::vector<block> vec_zero(ITEM_NUM,a0);
         
         std::vector<block> P(size);
-        pp.okvs.solve(vec_X, vec_zero, P, nullptr, pp.thread_num);
+        pp.okvs.solve(vec_X, vec_zero, P, &seed, pp.thread_num);
 
         // Fig 4.Step 3:VOLE
         std::vector<block> A;
@@ -261,7 +261,7 @@ namespace VOLEOPRF
         std::vector<block> vec_zero(ITEM_NUM,a0);
         
         std::vector<block> P(size);
-        pp.okvs.solve(vec_X, vec_zero, P, nullptr, pp.thread_num);
+        pp.okvs.solve(vec_X, vec_zero, P, &seed, pp.thread_num);
 
         // Fig 4.Step 3:VOLE
         std::vector<block> A;
-- 
2.43.0


From e7ebd03e001dc7adba4fd52b498ff27e2454e903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:04 +0000
Subject: [PATCH 40/53] fix: PSI-card-sum: the receiver adds as many values as
 it has items, not as many as the sender sent

---
 mpc/pso/mqrpmt_psi_card_sum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc/pso/mqrpmt_psi_card_sum.hpp b/mpc/pso/mqrpmt_psi_card_sum.hpp
index 5c5a92e..bb701b7 100644
--- a/mpc/pso/mqrpmt_psi_card_sum.hpp
+++ b/mpc/pso/mqrpmt_psi_card_sum.hpp
@@ -189,7 +189,7 @@ size_t Receive(NetIO &io, PP &pp, std::vector<block> &vec_Y)
     std::vector<std::vector<uint8_t>> vec_result = ALSZOTE::ReceiveByteVector(io, pp.ote_part, 
         vec_indication_bit, vec_indication_bit.size());
 
-    std::vector<BigInt> vec_v(pp.RECEIVER_ITEM_NUM); 
+    std::vector<BigInt> vec_v(vec_result.size()); 
 
     size_t CARDINALITY = 0; 
     for(auto i = 0; i < vec_indication_bit.size(); i++){
-- 
2.43.0


From 0870e845f8209e21b12a5fa84ec808396c92b55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:04 +0000
Subject: [PATCH 41/53] fix: PSI-card-sum: the sender's values are overwritten
 with their masked form

---
 mpc/pso/mqrpmt_psi_card_sum.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpc/pso/mqrpmt_psi_card_sum.hpp b/mpc/pso/mqrpmt_psi_card_sum.hpp
index bb701b7..a8dfe03 100644
--- a/mpc/pso/mqrpmt_psi_card_sum.hpp
+++ b/mpc/pso/mqrpmt_psi_card_sum.hpp
@@ -139,8 +139,9 @@ std::tuple<size_t, BigInt> Send(NetIO &io, PP &pp, std::vector<block> &vec_X, st
     
     cwPRFmqRPMT::Client(io, pp.mqrpmt_part, vec_X);
 
+    std::vector<BigInt> vec_masked_v(pp.SENDER_ITEM_NUM); 
     for(auto i = 0; i < pp.SENDER_ITEM_NUM; i++){
-        vec_v[i] =  (vec_v[i] + vec_r[i]) % SUM_BOUND;   // v_i = r_i + v_i  
+        vec_masked_v[i] =  (vec_v[i] + vec_r[i]) % SUM_BOUND;   // v_i = r_i + v_i  
     } 
 
     std::vector<std::vector<uint8_t>> vec_m0(pp.SENDER_ITEM_NUM); 
@@ -149,7 +150,7 @@ std::tuple<size_t, BigInt> Send(NetIO &io, PP &pp, std::vector<block> &vec_X, st
     #pragma omp parallel for num_threads(NUMBER_OF_THREADS)
     for(auto i = 0; i < pp.SENDER_ITEM_NUM; i++){
         vec_m0[i] = vec_r[i].ToByteVector(pp.LOG_SUM_BOUND/8); 
-        vec_m1[i] = vec_v[i].ToByteVector(pp.LOG_SUM_BOUND/8);
+        vec_m1[i] = vec_masked_v[i].ToByteVector(pp.LOG_SUM_BOUND/8);
     }
 
     std::cout << "[mqRPMT-based PSI-card-sum] Phase 2: execute OTe >>>" << std::endl;
-- 
2.43.0


From 4e42f11c87c6311377c3539f727b8462f7025105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:04 +0000
Subject: [PATCH 42/53] fix: PSI-card-sum: bounds of 64 bits and more overflow

---
 mpc/pso/mqrpmt_psi_card_sum.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpc/pso/mqrpmt_psi_card_sum.hpp b/mpc/pso/mqrpmt_psi_card_sum.hpp
index a8dfe03..5339e8b 100644
--- a/mpc/pso/mqrpmt_psi_card_sum.hpp
+++ b/mpc/pso/mqrpmt_psi_card_sum.hpp
@@ -123,8 +123,8 @@ std::tuple<size_t, BigInt> Send(NetIO &io, PP &pp, std::vector<block> &vec_X, st
         exit(1); // EXIT_FAILURE 
     }
     
-    BigInt VALUE_BOUND = BigInt(pow(2, pp.LOG_VALUE_BOUND)); 
-    BigInt SUM_BOUND = BigInt(pow(2, pp.LOG_SUM_BOUND)); 
+    BigInt VALUE_BOUND = BigInt(bn_1).Lshift(pp.LOG_VALUE_BOUND); 
+    BigInt SUM_BOUND = BigInt(bn_1).Lshift(pp.LOG_SUM_BOUND); 
     std::vector<BigInt> vec_r = GenRandomBigIntVectorLessThan(pp.SENDER_ITEM_NUM, SUM_BOUND);
     
     BigInt mask = bn_0;
@@ -198,7 +198,7 @@ size_t Receive(NetIO &io, PP &pp, std::vector<block> &vec_Y)
     }
 
     BigInt masked_SUM = bn_0; 
-    BigInt SUM_BOUND = BigInt(pow(2, pp.LOG_SUM_BOUND)); 
+    BigInt SUM_BOUND = BigInt(bn_1).Lshift(pp.LOG_SUM_BOUND); 
     for(auto i = 0; i < vec_v.size(); i++){
         vec_v[i].FromByteVector(vec_result[i]); 
         masked_SUM += vec_v[i];  
-- 
2.43.0


From 60b9d92a5141783a2f25814cda959e3909d334d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:04 +0000
Subject: [PATCH 43/53] fix: VOLE-based OPRF: a client with fewer inputs than
 INPUT_NUM reads beyond its input vector

---
 mpc/oprf/vole_oprf.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/mpc/oprf/vole_oprf.hpp b/mpc/oprf/vole_oprf.hpp
index 7e0787c..971d0e6 100644
--- a/mpc/oprf/vole_oprf.hpp
+++ b/mpc/oprf/vole_oprf.hpp
@@ -107,10 +107,17 @@ namespace VOLEOPRF
         // Fig 4.Step 2:the receiver solves the systems
         auto size = pp.okvs_output_size;
         block a0 = _mm_set_epi64x(0ll, 0ll);
-        std::vector<block> vec_zero(ITEM_NUM,a0);
+        std::vector<block> vec_zero(pp.INPUT_NUM,a0);
+        // the OKVS has room for exactly INPUT_NUM items: fill it up with random ones
+        std::vector<block> vec_padded_X = vec_X;
+        if (ITEM_NUM < pp.INPUT_NUM)
+        {
+            std::vector<block> vec_dummy = PRG::GenRandomBlocks(seed, pp.INPUT_NUM - ITEM_NUM);
+            vec_padded_X.insert(vec_padded_X.end(), vec_dummy.begin(), vec_dummy.end());
+        }
         
         std::vector<block> P(size);
-        pp.okvs.solve(vec_X, vec_zero, P, &seed, pp.thread_num);
+        pp.okvs.solve(vec_padded_X, vec_zero, P, &seed, pp.thread_num);
 
         // Fig 4.Step 3:VOLE
         std::vector<block> A;
@@ -258,10 +265,17 @@ namespace VOLEOPRF
         // Fig 4.Step 2:the receiver solves the systems
         auto size = pp.okvs_output_size;
         block a0 = _mm_set_epi64x(0ll, 0ll);
-        std::vector<block> vec_zero(ITEM_NUM,a0);
+        std::vector<block> vec_zero(pp.INPUT_NUM,a0);
+        // the OKVS has room for exactly INPUT_NUM items: fill it up with random ones
+        std::vector<block> vec_padded_X = vec_X;
+        if (ITEM_NUM < pp.INPUT_NUM)
+        {
+            std::vector<block> vec_dummy = PRG::GenRandomBlocks(seed, pp.INPUT_NUM - ITEM_NUM);
+            vec_padded_X.insert(vec_padded_X.end(), vec_dummy.begin(), vec_dummy.end());
+        }
         
         std::vector<block> P(size);
-        pp.okvs.solve(vec_X, vec_zero, P, &seed, pp.thread_num);
+        pp.okvs.solve(vec_padded_X, vec_zero, P, &seed, pp.thread_num);
 
         // Fig 4.Step 3:VOLE
         std::vector<block> A;
-- 
2.43.0


From fc0be87ffabe2b7975c01a9233ae33d538932fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:45 +0000
Subject: [PATCH 44/53] fix: Bloom filter: keys of odd length lose most of the
 entropy of their hash

The last byte was mixed in by multiplying the digest with an even number
(1 + 0xA5A5A5A5), so all hash functions of a key land on few positions of a
small table: a filter for one elliptic-curve point (65 bytes) with parameter
40 reports about 3% of all other points as members, and the plain-EC
cwPRF-based mqRPMT answers wrongly.
---
 utility/murmurhash3.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utility/murmurhash3.hpp b/utility/murmurhash3.hpp
index 1fb222f..54ee3ed 100644
--- a/utility/murmurhash3.hpp
+++ b/utility/murmurhash3.hpp
@@ -375,7 +375,7 @@ inline uint32_t LiteMurmurHash(uint32_t salt, const void* input, size_t LEN)
 
    if (REMAINING_LEN == 1){
       e = *(reinterpret_cast<const uint8_t*>(itr)); itr += 1;
-      digest += (e ^ (digest * 0xA5A5A5A5)) + loop;
+      digest = (e ^ (digest * 0xA5A5A5A5)) + loop;
       REMAINING_LEN -= 1;  
    }
    
-- 
2.43.0


From ab5daf702521b6a203f53a376bc48210b5af4535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:34 +0000
Subject: [PATCH 45/53] fix: rrPKE-based mqRPMT: queries outside the server's
 set are reported as members

The key-value store was encoded without randomness, so free columns stay zero
and a key that shares one column with an encoded key can decode to that key's
ciphertext. Encode with fresh randomness.
---
 mpc/rpmt/rrpke_mqrpmt.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpc/rpmt/rrpke_mqrpmt.hpp b/mpc/rpmt/rrpke_mqrpmt.hpp
index b76d127..15144a8 100644
--- a/mpc/rpmt/rrpke_mqrpmt.hpp
+++ b/mpc/rpmt/rrpke_mqrpmt.hpp
@@ -165,7 +165,9 @@ std::vector<uint8_t> Server(NetIO &io, PP &pp, std::vector<block> &vec_Y){
     auto out_length = baxos.bin_num * baxos.total_size;//calculate the output length of OKVS::decode(vec_Y,vec_out)
     std::vector<BlockArrayValue> vec_out(out_length);
     uint8_t baxos_thread_num = NUMBER_OF_THREADS;
-    baxos.solve(vec_Y, vec_value, vec_out, 0, baxos_thread_num);
+    // the free columns must be random, otherwise keys that are not in vec_Y may decode to an encoded value
+    PRG::Seed seed = PRG::SetSeed();
+    baxos.solve(vec_Y, vec_value, vec_out, &seed, baxos_thread_num);
   
        
     //send the output of OKVS::decode to client
-- 
2.43.0


From e2bce8404b41456ed435f44fcefcab51fa680733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:06 +0000
Subject: [PATCH 46/53] fix: ADCP: replayed and stale transactions are accepted

The miner never compared a transaction's serial number and sender balance with
the sender's account, so a transaction could be recorded (and its amount moved)
any number of times, and a sender could spend a balance it no longer has or
never had. To-one transactions did not advance the serial number either.
---
 adcp/adcp.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/adcp/adcp.hpp b/adcp/adcp.hpp
index 8f8073c..cf90a85 100755
--- a/adcp/adcp.hpp
+++ b/adcp/adcp.hpp
@@ -335,6 +335,8 @@ bool UpdateAccount(PP &pp, ToOneCTx &newCTx, Account &Acct_sender, Account &Acct
     TwistedExponentialElGamal::CT c_in; 
     c_in.X = newCTx.transfer_ct.vec_X[1]; c_in.Y = newCTx.transfer_ct.Y;
 
+    Acct_sender.sn = Acct_sender.sn + bn_1;
+
     // update sender's balance
     Acct_sender.balance_ct = TwistedExponentialElGamal::HomoSub(Acct_sender.balance_ct, c_out); 
     Acct_sender.m = TwistedExponentialElGamal::Dec(pp.enc_part, Acct_sender.sk, Acct_sender.balance_ct); 
@@ -615,6 +617,13 @@ bool VerifyCTx(PP &pp, ToOneCTx &newCTx)
     return Validity; 
 }
 
+/* a ctx must be built on the current state of the sender's account, otherwise it is stale or a replay */
+template <typename T>
+bool IsFresh(T &newCTx, Account &Acct_sender)
+{
+    return newCTx.sn == Acct_sender.sn && newCTx.sender_balance_ct == Acct_sender.balance_ct; 
+}
+
 /* check if a ctx is valid and update accounts if so */
 bool Miner(PP &pp, ToOneCTx &newCTx, Account &Acct_sender, Account &Acct_receiver)
 {
@@ -628,6 +637,11 @@ bool Miner(PP &pp, ToOneCTx &newCTx, Account &Acct_sender, Account &Acct_receive
         return false; 
     }
 
+    if (IsFresh(newCTx, Acct_sender) == false){
+        std::cout << "CTx is not based on the current state of sender's account" << std::endl; 
+        return false; 
+    }
+
     std::string ctx_file = GetCTxFileName(newCTx); 
     if(VerifyCTx(pp, newCTx) == true){
         UpdateAccount(pp, newCTx, Acct_sender, Acct_receiver);
@@ -1430,6 +1444,11 @@ bool Miner(PP &pp, ToManyCTx &newCTx, Account &Acct_sender, std::vector<Account>
         } 
     }
 
+    if (IsFresh(newCTx, Acct_sender) == false){
+        std::cout << "CTx is not based on the current state of sender's account" << std::endl; 
+        return false; 
+    }
+
     std::string ctx_file = GetCTxFileName(newCTx); 
     if(VerifyCTx(pp, newCTx) == true){
         UpdateAccount(pp, newCTx, Acct_sender, vec_Acct_receiver);
-- 
2.43.0


From 8b3f164dd3afbc14cd3bac1c8bc28325bf7d50a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:06 +0000
Subject: [PATCH 47/53] fix: ADCP: to-many transactions with a wrong number of
 receivers

With fewer receiver accounts than the transaction has receivers the sender is
debited although some receivers get nothing; with more, or with missing
components, the miner reads out of bounds.
---
 adcp/adcp.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/adcp/adcp.hpp b/adcp/adcp.hpp
index cf90a85..7f96b34 100755
--- a/adcp/adcp.hpp
+++ b/adcp/adcp.hpp
@@ -1228,6 +1228,10 @@ bool VerifyCTx(PP &pp, ToManyCTx &newCTx)
     if(IsPowerOfTwo(n+1) == false){
         std::cerr << "receiver num must be 2^n-1" << std::endl;
     }
+    if(newCTx.vec_receiver_transfer_ct.size() != n || newCTx.vec_plaintext_equality_proof.size() != n){
+        std::cerr << "ctx is malformed" << std::endl;
+        return false; 
+    }
     std::string ctx_type = "(1-to-"+std::to_string(n)+")"; 
     
     #ifdef DEMO
@@ -1437,6 +1441,10 @@ bool Miner(PP &pp, ToManyCTx &newCTx, Account &Acct_sender, std::vector<Account>
         std::cout << "sender does not match CTx" << std::endl; 
         return false; 
     }
+    if (newCTx.vec_pkr.size() != vec_Acct_receiver.size()){
+        std::cerr << "receiver num does not match ctx" << std::endl; 
+        return false;
+    }
     for(auto i = 0; i < vec_Acct_receiver.size(); i++){
         if (newCTx.vec_pkr[i] != vec_Acct_receiver[i].pk){
             std::cerr << i<<"-th receiver does not match ctx" << std::endl; 
-- 
2.43.0


From 52e1481d2b93a49081cb0f221e4b0eef54479d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:06 +0000
Subject: [PATCH 48/53] fix: ADCP: a to-many transaction can create money

Nothing showed that the sender's transfer ciphertext (X, Y) is well-formed: the
balance proof only concerns Y. With X = pks^r h^{k sk} the updated balance of
the sender decrypts to k coins more than it should, and all proofs verify. Add
a proof of plaintext knowledge for this ciphertext.
---
 adcp/adcp.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/adcp/adcp.hpp b/adcp/adcp.hpp
index 7f96b34..50538b7 100755
--- a/adcp/adcp.hpp
+++ b/adcp/adcp.hpp
@@ -979,6 +979,7 @@ struct ToManyCTx{
     Bullet::Proof bullet_right_solvent_proof;   // aggregated range proof for v, m-v and v_i lie in the right range 
 
     DLOGKnowledge::Proof balance_proof; // prove v = v_1 +...+ v_n    
+    PlaintextKnowledge::Proof sender_transfer_proof; // NIZKPoK for sender_transfer_ct (X = pks^r, Y = g^r h^v)
 };
 
 // save CTx into sn.ctx file
@@ -1009,6 +1010,7 @@ void SaveCTx(ToManyCTx &newCTx, std::string ADCP_CTx_File)
     fout << newCTx.correct_refresh_proof; 
     fout << newCTx.bullet_right_solvent_proof; 
     fout << newCTx.plaintext_knowledge_proof; 
+    fout << newCTx.sender_transfer_proof; 
 
     fout.close();
 
@@ -1042,6 +1044,7 @@ std::string ExtractToSignMessageFromCTx(ToManyCTx &newCTx)
     str += PlaintextKnowledge::ProofToByteString(newCTx.plaintext_knowledge_proof); 
 
     str += DLOGKnowledge::ProofToByteString(newCTx.balance_proof); 
+    str += PlaintextKnowledge::ProofToByteString(newCTx.sender_transfer_proof); 
 
     return str;
 }
@@ -1188,6 +1191,13 @@ ToManyCTx CreateCTx(PP &pp, Account &Acct_sender, std::vector<BigInt> &vec_v, st
     newCTx.balance_proof = DLOGKnowledge::Prove(dlog_knowledge_pp, dlog_knowledge_instance, dlog_knowledge_witness, 
                          transcript_str);
 
+    // the sender's transfer ciphertext is well-formed, otherwise its X part could raise the sender's balance
+    plaintext_knowledge_instance.ct = newCTx.sender_transfer_ct; 
+    plaintext_knowledge_witness.r = r; 
+    plaintext_knowledge_witness.v = v; 
+    newCTx.sender_transfer_proof = PlaintextKnowledge::Prove(plaintext_knowledge_pp, plaintext_knowledge_instance, 
+                                   plaintext_knowledge_witness, transcript_str);
+
     #ifdef DEMO
         std::cout << "8. generate NIZKPoK for correct refreshing and authenticate the ctx" << std::endl;  
     #endif
@@ -1309,6 +1319,11 @@ bool VerifyCTx(PP &pp, ToManyCTx &newCTx)
 
     condition4 = DLOGKnowledge::Verify(dlog_knowledge_pp, dlog_knowledge_instance, transcript_str, newCTx.balance_proof);
 
+    // check that the sender's transfer ciphertext is well-formed
+    plaintext_knowledge_instance.ct = newCTx.sender_transfer_ct; 
+    condition4 = PlaintextKnowledge::Verify(plaintext_knowledge_pp, plaintext_knowledge_instance, 
+                                            transcript_str, newCTx.sender_transfer_proof) && condition4;
+
     #ifdef DEMO
         if (condition4) std::cout << "NIZKPoK for balance proof accepts" << std::endl; 
         else std::cout << "NIZKPoK for balance proof rejects" << std::endl; 
@@ -1389,6 +1404,7 @@ void PrintCTx(ToManyCTx &newCTx)
 
     std::cout << "NIZKPoK for input-output balance >>> " << std::endl; 
     DLOGKnowledge::PrintProof(newCTx.balance_proof); // prove v = v_1 +...+ v_n 
+    PlaintextKnowledge::PrintProof(newCTx.sender_transfer_proof); 
     std::cout << std::endl;
 
     std::cout << "range proofs for transfer amount and updated balance >>> " << std::endl; 
-- 
2.43.0


From 303f147e82ee81284e2cdb2a2e22fd7861db68a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:05 +0000
Subject: [PATCH 49/53] fix: Baxos: threads share one random generator in
 randomised encoding

The filling of the free columns was drawn by all threads from one generator
without synchronisation: depending on the schedule two bins get the same
"random" values. Give each bin a generator seeded from the caller's.
---
 mpc/okvs/baxos.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mpc/okvs/baxos.hpp b/mpc/okvs/baxos.hpp
index 210a40a..d3b9574 100644
--- a/mpc/okvs/baxos.hpp
+++ b/mpc/okvs/baxos.hpp
@@ -228,6 +228,14 @@ inline void Baxos<dense_type, value_type>::impl_solve(const std::vector<block> &
             //             else
             //                 assignment_done_future.get();
         }
+        // each bin draws its filling from a generator of its own: threads must not share one
+        std::vector<PRG::Seed> bin_prng;
+        if (prng != nullptr)
+        {
+            std::vector<block> bin_salt = PRG::GenRandomBlocks(*prng, bin_num);
+            for (uint64_t bin_idx = 0; bin_idx < bin_num; bin_idx++)
+                bin_prng.push_back(PRG::SetSeed(&bin_salt[bin_idx], 0));
+        }
 #pragma omp parallel
         {
 
@@ -317,7 +325,7 @@ inline void Baxos<dense_type, value_type>::impl_solve(const std::vector<block> &
                     paxos.weight_statistic();
                     paxos.init_hcols();
                 }
-                paxos.encode(values_pointer, output_pointer, prng);
+                paxos.encode(values_pointer, output_pointer, prng != nullptr ? &bin_prng[bin_idx] : nullptr);
 #ifndef NDEBUG
 
                 // Check in advance that the single encode process is executed correctly,
-- 
2.43.0


From 184c08dec85f1111a179143b25de9079a80b1fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:21 +0000
Subject: [PATCH 50/53] fix: Baxos: wrong results when the team has another
 size than requested

The work was divided by the requested number of threads but done by the members
of the team that OpenMP provides; with fewer members (nested call, thread limit,
dynamic adjustment) keys are silently dropped. Divide the work with a loop. This
also stops changing the caller's default team size, which the bignum contexts
depend on.
---
 mpc/okvs/baxos.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/mpc/okvs/baxos.hpp b/mpc/okvs/baxos.hpp
index d3b9574..9977f7e 100644
--- a/mpc/okvs/baxos.hpp
+++ b/mpc/okvs/baxos.hpp
@@ -107,7 +107,6 @@ inline void Baxos<dense_type, value_type>::impl_solve(const std::vector<block> &
     }
     else
     {
-        omp_set_num_threads(thread_num);
         auto total_bin_num = thread_num * bin_num;
         // thread_1:bin_0,bin_1,...,bin_
         // thread_2:bin_0,bin_1,...,bin_
@@ -166,9 +165,9 @@ inline void Baxos<dense_type, value_type>::impl_solve(const std::vector<block> &
         const uint64_t keys_size = keys.size();
         block *keys_data = (block *)keys.data();
 
-#pragma omp parallel
+#pragma omp parallel for num_threads(thread_num)
+        for (uint32_t thread_id = 0; thread_id < thread_num; thread_id++)
         {
-            const uint8_t thread_id = omp_get_thread_num();
             uint64_t begin = (keys_size * thread_id) / thread_num;
             const uint64_t len = keys_size * (thread_id + 1) / thread_num - begin;
 
@@ -236,11 +235,10 @@ inline void Baxos<dense_type, value_type>::impl_solve(const std::vector<block> &
             for (uint64_t bin_idx = 0; bin_idx < bin_num; bin_idx++)
                 bin_prng.push_back(PRG::SetSeed(&bin_salt[bin_idx], 0));
         }
-#pragma omp parallel
+#pragma omp parallel for num_threads(thread_num)
+        for (uint32_t thread_id = 0; thread_id < thread_num; thread_id++)
         {
-
             // Use different threads to process each bin.
-            uint8_t thread_id = omp_get_thread_num();
             for (uint64_t bin_idx = thread_id; bin_idx < bin_num; bin_idx += thread_num)
             {
                 uint32_t bin_size = 0;
@@ -498,15 +496,14 @@ inline void Baxos<dense_type, value_type>::impl_decode(const std::vector<block>
         paxos.decode(keys.data(), keys.size(), output.data(), values.data());
         return;
     }
-    omp_set_num_threads(thread_num);
 
     auto keys_size = keys.size();
     auto keys_begin = keys.data();
     auto values_begin = values.data();
-#pragma omp parallel
+#pragma omp parallel for num_threads(thread_num)
+    for (uint32_t thread_id = 0; thread_id < thread_num; thread_id++)
     {
         // Assign the keys std::array and values ​​std::array to different threads
-        uint8_t thread_id = omp_get_thread_num();
         uint64_t begin = (keys_size * thread_id) / thread_num;
         uint64_t len = keys_size * (thread_id + 1) / thread_num - begin;
 
-- 
2.43.0


From 1f980a6ff4ded6cd2b4dc1ba8fcb3f73c96677f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:33 +0000
Subject: [PATCH 51/53] fix: Baxos: a single-bin store aborts or reads past the
 keys when fewer items than declared are given

---
 mpc/okvs/baxos.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpc/okvs/baxos.hpp b/mpc/okvs/baxos.hpp
index 9977f7e..589d815 100644
--- a/mpc/okvs/baxos.hpp
+++ b/mpc/okvs/baxos.hpp
@@ -101,6 +101,8 @@ inline void Baxos<dense_type, value_type>::impl_solve(const std::vector<block> &
     {
         // If there is only one bin, then call single-threaded OKVS
         OKVS<idx_type, dense_type, value_type> paxos(item_num_per_bin, sparse_weight, statistical_security_parameter, &seed);
+        // as with several bins, fewer items than declared may be given
+        paxos.item_num = keys.size();
         paxos.set_keys(keys.data());
         output = paxos.encode(values, prng);
         return;
-- 
2.43.0


From d7b5147bd0e03d0c29feba91b61c270ac8b82574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:33 +0000
Subject: [PATCH 52/53] fix: OKVS: randomised encoding ignores the random
 sparse columns of gap rows, stored keys decode to wrong values

---
 mpc/okvs/paxos.hpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/mpc/okvs/paxos.hpp b/mpc/okvs/paxos.hpp
index 1cd4cec..270489e 100644
--- a/mpc/okvs/paxos.hpp
+++ b/mpc/okvs/paxos.hpp
@@ -356,6 +356,17 @@ public:
       doMod32(vals, divider, modVal);
    }
 
+   // The sum of the sparse columns of a row. In a gap row cleared by F*C^{-1} only the columns
+   // outside of the triangle are left: randomised ones contribute to its equation.
+   inline value_type sparse_part(idx_type row, const value_type *output)
+   {
+      auto row_data = h_sparse[row];
+      value_type sum = output[row_data[0]];
+      for (auto j = 1; j < sparse_weight; j++)
+         sum ^= output[row_data[j]];
+      return sum;
+   }
+
    // Calculate F*C^{-1}
    void get_FC_1();
 
@@ -1335,6 +1346,12 @@ void OKVS<idx_type, dense_type, value_type>::backfill_BlockArrayValue128(value_t
          {
             values_[i] ^= values[j];
          }
+         if (prng)
+         {
+            values_[i] ^= sparse_part(gap_rows[i], output);
+            for (auto j : FC_1[i])
+               values_[i] ^= sparse_part(j, output);
+         }
       }
 
       for (auto i = 0; i < len; i++)
@@ -1459,6 +1476,12 @@ void OKVS<idx_type, dense_type, value_type>::backfill_gf128(block *values, block
          {
             values_[i] ^= values[j];
          }
+         if (prng)
+         {
+            values_[i] ^= sparse_part(gap_rows[i], output);
+            for (auto j : FC_1[i])
+               values_[i] ^= sparse_part(j, output);
+         }
       }
 
       for (auto i = 0; i < len; i++)
@@ -1617,6 +1640,12 @@ void OKVS<idx_type, dense_type, value_type>::backfill_binary(value_type *values,
          {
             v2_i ^= values[j];
          }
+         if (prng)
+         {
+            v2_i ^= sparse_part(gap_rows[i], output);
+            for (auto j : FC_1[i])
+               v2_i ^= sparse_part(j, output);
+         }
       }
       if (prng)
       {
-- 
2.43.0


From 62d51566d61f0dc42076ee4735e5374b3035b85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:33 +0000
Subject: [PATCH 53/53] fix: OKVS: randomised encoding without dense columns
 uses the memory behind the store

---
 mpc/okvs/paxos.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpc/okvs/paxos.hpp b/mpc/okvs/paxos.hpp
index 270489e..ec21214 100644
--- a/mpc/okvs/paxos.hpp
+++ b/mpc/okvs/paxos.hpp
@@ -1388,7 +1388,7 @@ void OKVS<idx_type, dense_type, value_type>::backfill_BlockArrayValue128(value_t
          temp_value ^= output[cc]; // 00//00//00output[row_data[1]]
       }
 
-      if (g || prng)
+      if (dense_size > 0 && (g || prng))
       {
          auto common_ratio_d = h_dense[row];
          auto d_iter_j = common_ratio_d;
@@ -1518,7 +1518,7 @@ void OKVS<idx_type, dense_type, value_type>::backfill_gf128(block *values, block
          temp_block ^= output[cc]; // 00//00//00output[row_data[1]]
       }
 
-      if (g || prng)
+      if (dense_size > 0 && (g || prng))
       {
          auto common_ratio_d = h_dense[row];
          auto d_iter_j = common_ratio_d;
-- 
2.43.0

