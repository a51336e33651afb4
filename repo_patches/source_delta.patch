From 30f9754af78f26be3d0eab6c0e6c7607f6830c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 01/47] fix: column_begin of a column without entries must not
 query past the last row

---
 src/lib/matrix/SparseMatrix.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index bb62f06..f3b11ec 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -518,7 +518,7 @@ const SparseMatrixColumnIterator<T> SparseMatrix<T>::column_begin(Index i) const
 	else
 	{
 		Index row = 0;
-		while (!has(row, i) && row != rows())
+		while (row != rows() && !has(row, i))
 			++row;
 
 		if (row == rows())
@@ -542,7 +542,7 @@ SparseMatrixColumnIterator<T> SparseMatrix<T>::column_begin(Index i)
 	else
 	{
 		Index row = 0;
-		while (!has(row, i) && row != rows())
+		while (row != rows() && !has(row, i))
 			++row;
 
 		if (row == rows())
-- 
2.43.0


From e05f51b62bab70af7f0007889f95a7ce652b8f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 02/47] fix: erase must return the iterator of the next
 non-empty row

---
 src/lib/matrix/SparseMatrix.inl | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index f3b11ec..5a015f0 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -623,7 +623,6 @@ SparseMatrixIterator<T> SparseMatrix<T>::erase(const SparseMatrixIterator<T>& it
 				if (mRowPtr[s1] == it.mColumnPtrIndex)
 				{
 					nIt.mIndex1 = s1;// New row
-					break;
 				}
 				else if (mRowPtr[s1] > it.mColumnPtrIndex)
 				{
-- 
2.43.0


From c3baa5b3068f4093d46ed0a95f3442905ad9107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 03/47] fix: subtracting a sparse matrix from itself skipped
 entries

---
 src/lib/matrix/SparseMatrix.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 5a015f0..13842cd 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -652,6 +652,9 @@ SparseMatrix<T>& SparseMatrix<T>::operator +=(const SparseMatrix<T>& v2)
 template<typename T>
 SparseMatrix<T>& SparseMatrix<T>::operator -=(const SparseMatrix<T>& v2)
 {
+	if (this == &v2)// Erasing while iterating over ourselves would skip entries
+		return (*this *= (T)0);
+
 	for (auto it = v2.cbegin(); it != v2.cend(); ++it)
 		set(it.row(), it.column(), at(it.row(), it.column()) - *it);
 
-- 
2.43.0


From 6f3fc2529e7d896f1abe51d899ab20072aa2d5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 04/47] fix: swapping sparse matrices must exchange the column
 count too

---
 src/lib/matrix/SparseMatrix.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 13842cd..fa13022 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -834,6 +834,7 @@ void SparseMatrix<T>::swap(SparseMatrix<T>& v)
 	std::swap(mValues, v.mValues);
 	std::swap(mColumnPtr, v.mColumnPtr);
 	std::swap(mRowPtr, v.mRowPtr);
+	std::swap(mColumnCount, v.mColumnCount);
 }
 
 template<typename T>
-- 
2.43.0


From a4b56bf371a226b83299cde124b9814158d40b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 05/47] fix: resize of dense and sparse matrices did nothing

---
 src/lib/matrix/DenseMatrix.h    | 3 +--
 src/lib/matrix/DenseMatrix.inl  | 9 ++++++++-
 src/lib/matrix/SparseMatrix.h   | 3 +--
 src/lib/matrix/SparseMatrix.inl | 9 ++++++++-
 4 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/lib/matrix/DenseMatrix.h b/src/lib/matrix/DenseMatrix.h
index ea7d47b..ad7dfae 100644
--- a/src/lib/matrix/DenseMatrix.h
+++ b/src/lib/matrix/DenseMatrix.h
@@ -39,12 +39,11 @@ public:
 	virtual ~DenseMatrix();
 
 	/**
-	 * @brief Resize dimension of the matrix.
+	 * @brief Resize dimension of the matrix. Entries inside the new dimensions are kept.
 	 * @par Complexity
 	 * Unknown
 	 * @param d1 New row dimension.
 	 * @param d2 New column dimension.
-	 * @todo Implement this!
 	 */
 	void resize(Dimension d1, Dimension d2);
 	
diff --git a/src/lib/matrix/DenseMatrix.inl b/src/lib/matrix/DenseMatrix.inl
index b6aa00b..f8b5fbb 100644
--- a/src/lib/matrix/DenseMatrix.inl
+++ b/src/lib/matrix/DenseMatrix.inl
@@ -51,7 +51,14 @@ void DenseMatrix<T>::resize(Dimension d1, Dimension d2)
 {
 	NS_ASSERT(d1 > 0);
 	NS_ASSERT(d2 > 0);
-	//TODO
+
+	DenseMatrix<T> tmp(d1, d2);
+	for (Index i = 0; i < t_min(d1, this->rows()); ++i)
+	{
+		for (Index j = 0; j < t_min(d2, this->columns()); ++j)
+			tmp.set(i, j, this->at(i, j));
+	}
+	swap(tmp);
 }
 
 // Operators
diff --git a/src/lib/matrix/SparseMatrix.h b/src/lib/matrix/SparseMatrix.h
index 4c24cb7..81438cb 100644
--- a/src/lib/matrix/SparseMatrix.h
+++ b/src/lib/matrix/SparseMatrix.h
@@ -302,12 +302,11 @@ public:
 	virtual ~SparseMatrix();
 
 	/**
-	* @brief Resize dimension of the matrix.
+	* @brief Resize dimension of the matrix. Entries inside the new dimensions are kept.
 	* @par Complexity
 	* Unknown
 	* @param d1 New row dimension.
 	* @param d2 New column dimension.
-	* @todo Implement this!
 	*/
 	void resize(Dimension d1, Dimension d2);
 
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index fa13022..227317a 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -235,7 +235,14 @@ void SparseMatrix<T>::resize(Dimension d1, Dimension d2)
 {
 	NS_ASSERT(d1 > 0);
 	NS_ASSERT(d2 > 0);
-	//TODO
+
+	SparseMatrix<T> tmp(d1, d2);
+	for (auto it = cbegin(); it != cend(); ++it)
+	{
+		if (it.row() < d1 && it.column() < d2)
+			tmp.set(it.row(), it.column(), *it);
+	}
+	swap(tmp);
 }
 
 /*
-- 
2.43.0


From 15a03963752f143e831cc60e3c8ed74e7628b0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 06/47] fix: conjugate and adjugate of fixed matrices called a
 function that does not exist

---
 src/lib/matrix/FixedMatrix.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/matrix/FixedMatrix.inl b/src/lib/matrix/FixedMatrix.inl
index 6dcd48a..c98b05a 100644
--- a/src/lib/matrix/FixedMatrix.inl
+++ b/src/lib/matrix/FixedMatrix.inl
@@ -111,7 +111,7 @@ FixedMatrix<T,K1,K2> FixedMatrix<T,K1,K2>::conjugate() const
 	{
 		for (Index j = 0; j < this->columns(); ++j)
 		{
-			tmp.set(i, j, conjugate_vt(this->at(i, j)));
+			tmp.set(i, j, complex_conj(this->at(i, j)));
 		}
 	}
 
@@ -126,7 +126,7 @@ FixedMatrix<T,K2,K1> FixedMatrix<T,K1,K2>::adjugate() const
 	{
 		for (Index j = 0; j < this->rows(); ++j)
 		{
-			tmp.set(i, j, conjugate_vt(this->at(j, i)));
+			tmp.set(i, j, complex_conj(this->at(j, i)));
 		}
 	}
 
-- 
2.43.0


From 357dfba10ec4e40cd96d2b76900c8f36ef758eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 07/47] fix: max() of vectors and matrices without positive
 elements returned the smallest positive number

---
 src/lib/CountableSet.inl        | 2 +-
 src/lib/matrix/BaseMatrix.inl   | 2 +-
 src/lib/matrix/SparseMatrix.inl | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/CountableSet.inl b/src/lib/CountableSet.inl
index 22a8dcd..d584ebf 100644
--- a/src/lib/CountableSet.inl
+++ b/src/lib/CountableSet.inl
@@ -76,7 +76,7 @@ T CountableSet<T, DC>::max() const
 {
 	typedef typename get_complex_internal<T>::type _t;
 
-	_t s = std::numeric_limits<_t>::min();
+	_t s = std::numeric_limits<_t>::lowest();
 	for (Index i = 0; i < size(); ++i)
 	{
 		_t d = complex_abs(mData[i]);
diff --git a/src/lib/matrix/BaseMatrix.inl b/src/lib/matrix/BaseMatrix.inl
index 3fc479c..37a11ca 100644
--- a/src/lib/matrix/BaseMatrix.inl
+++ b/src/lib/matrix/BaseMatrix.inl
@@ -372,7 +372,7 @@ T BaseMatrix<T,DC>::sum() const
 template<typename T, class DC>
 T BaseMatrix<T,DC>::max() const
 {
-	T s = std::numeric_limits<typename get_complex_internal<T>::type>::min();
+	T s = std::numeric_limits<typename get_complex_internal<T>::type>::lowest();
 	for (auto l : mValues.Container)
 	{
 		if (l > s)
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 227317a..f482dc3 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -770,7 +770,7 @@ T SparseMatrix<T>::sum() const
 template<typename T>
 T SparseMatrix<T>::max() const
 {
-	T s = std::numeric_limits<typename get_complex_internal<T>::type>::min();
+	T s = std::numeric_limits<typename get_complex_internal<T>::type>::lowest();
 	for (auto l : mValues)
 	{
 		if (l > s)
-- 
2.43.0


From 954871042fe997f397ba07d09c4aa402f1330451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 08/47] fix: nan and inf queries did not compile for complex
 elements

---
 src/lib/Types.h                 | 8 ++++----
 src/lib/matrix/BaseMatrix.inl   | 4 ++--
 src/lib/matrix/SparseMatrix.inl | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib/Types.h b/src/lib/Types.h
index 7a484ae..51d3a1a 100644
--- a/src/lib/Types.h
+++ b/src/lib/Types.h
@@ -88,25 +88,25 @@ T complex_abs(const std::complex<T>& t)
 }
 
 template<typename T>
-T complex_isnan(const T& t)
+bool complex_isnan(const T& t)
 {
 	return std::isnan(t);
 }
 
 template<typename T>
-T complex_isnan(const std::complex<T>& t)
+bool complex_isnan(const std::complex<T>& t)
 {
 	return std::isnan(t.real()) || std::isnan(t.imag());
 }
 
 template<typename T>
-T complex_isinf(const T& t)
+bool complex_isinf(const T& t)
 {
 	return std::isinf(t);
 }
 
 template<typename T>
-T complex_isinf(const std::complex<T>& t)
+bool complex_isinf(const std::complex<T>& t)
 {
 	return std::isinf(t.real()) || std::isinf(t.imag());
 }
diff --git a/src/lib/matrix/BaseMatrix.inl b/src/lib/matrix/BaseMatrix.inl
index 37a11ca..4edfb2f 100644
--- a/src/lib/matrix/BaseMatrix.inl
+++ b/src/lib/matrix/BaseMatrix.inl
@@ -406,7 +406,7 @@ bool BaseMatrix<T,DC>::has_nan() const
 {
 	for (auto l : mValues.Container)
 	{
-		if (std::isnan(l))
+		if (complex_isnan(l))
 			return true;
 	}
 
@@ -418,7 +418,7 @@ bool BaseMatrix<T,DC>::has_inf() const
 {
 	for (auto l : mValues.Container)
 	{
-		if (std::isinf(l))
+		if (complex_isinf(l))
 			return true;
 	}
 
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index f482dc3..362f75e 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -810,7 +810,7 @@ bool SparseMatrix<T>::has_nan() const
 {
 	for (auto l : mValues)
 	{
-		if (std::isnan(l))
+		if (complex_isnan(l))
 			return true;
 	}
 
@@ -822,7 +822,7 @@ bool SparseMatrix<T>::has_inf() const
 {
 	for (auto l : mValues)
 	{
-		if (std::isinf(l))
+		if (complex_isinf(l))
 			return true;
 	}
 
-- 
2.43.0


From e872fc55ba530ee7a942cab8e22fbd74b762895f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:46 +0000
Subject: [PATCH 09/47] fix: negating complex vectors was ambiguous and did not
 compile

---
 src/lib/Vector.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index c8b41dc..4c6be8e 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -276,7 +276,7 @@ template<typename T, class DC>
 Vector<T,DC> operator -(const Vector<T,DC>& v)
 {
 	Vector<T,DC> tmp = v;
-	return (tmp *= -1);
+	return (tmp *= (T)-1);
 }
 
 template<typename T, class DC>
-- 
2.43.0


From 12b1ac195c3a953f7c00b8097a877a01a47655d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 10/47] fix: entrywise operations on matrices of different
 shape were not rejected

---
 src/lib/matrix/DenseMatrix.inl  | 6 +++---
 src/lib/matrix/SparseMatrix.inl | 9 +++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lib/matrix/DenseMatrix.inl b/src/lib/matrix/DenseMatrix.inl
index f8b5fbb..2a67ec9 100644
--- a/src/lib/matrix/DenseMatrix.inl
+++ b/src/lib/matrix/DenseMatrix.inl
@@ -66,7 +66,7 @@ template<typename T>
 template<class DC2>
 DenseMatrix<T>& DenseMatrix<T>::operator +=(const BaseMatrix<T,DC2>& m)
 {
-	if (this->size() != m.size())
+	if (this->rows() != m.rows() || this->columns() != m.columns())
 		throw MatrixSizeMismatchException();
 
 	for (Index i = 0; i < this->size(); ++i)
@@ -79,7 +79,7 @@ template<typename T>
 template<class DC2>
 DenseMatrix<T>& DenseMatrix<T>::operator -=(const BaseMatrix<T,DC2>& m)
 {
-	if (this->size() != m.size())
+	if (this->rows() != m.rows() || this->columns() != m.columns())
 		throw MatrixSizeMismatchException();
 
 	for (Index i = 0; i < this->size(); ++i)
@@ -92,7 +92,7 @@ template<typename T>
 template<class DC2>
 DenseMatrix<T>& DenseMatrix<T>::operator *=(const BaseMatrix<T,DC2>& m)
 {
-	if (this->size() != m.size())
+	if (this->rows() != m.rows() || this->columns() != m.columns())
 		throw MatrixSizeMismatchException();
 
 	for (Index i = 0; i < this->size(); ++i)
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 362f75e..422c568 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -650,6 +650,9 @@ SparseMatrixIterator<T> SparseMatrix<T>::erase(const SparseMatrixIterator<T>& it
 template<typename T>
 SparseMatrix<T>& SparseMatrix<T>::operator +=(const SparseMatrix<T>& v2)
 {
+	if (rows() != v2.rows() || columns() != v2.columns())
+		throw MatrixSizeMismatchException();
+
 	for (auto it = v2.cbegin(); it != v2.cend(); ++it)// O(D1*D2)
 		set(it.row(), it.column(), at(it.row(), it.column()) + *it);// O(D1*D2)
 
@@ -659,6 +662,9 @@ SparseMatrix<T>& SparseMatrix<T>::operator +=(const SparseMatrix<T>& v2)
 template<typename T>
 SparseMatrix<T>& SparseMatrix<T>::operator -=(const SparseMatrix<T>& v2)
 {
+	if (rows() != v2.rows() || columns() != v2.columns())
+		throw MatrixSizeMismatchException();
+
 	if (this == &v2)// Erasing while iterating over ourselves would skip entries
 		return (*this *= (T)0);
 
@@ -671,6 +677,9 @@ SparseMatrix<T>& SparseMatrix<T>::operator -=(const SparseMatrix<T>& v2)
 template<typename T>
 SparseMatrix<T>& SparseMatrix<T>::operator *=(const SparseMatrix<T>& v2)
 {
+	if (rows() != v2.rows() || columns() != v2.columns())
+		throw MatrixSizeMismatchException();
+
 	for (auto it = v2.cbegin(); it != v2.cend(); ++it)// O(D1*D2)
 	{
 		bool found;
-- 
2.43.0


From ceb7be4d4f1cd5d6fccfba1f968c97bfc3c2a351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 11/47] fix: ilu0 mixed its result into what the output
 matrices held before

---
 src/lib/LU.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index dc29013..9586718 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -222,6 +222,9 @@ namespace LU {
 				throw NotSquareException();
 
 			SparseMatrix<T> M = A;
+			L = SparseMatrix<T>(A.rows(), A.columns());
+			U = SparseMatrix<T>(A.rows(), A.columns());
+
 			// Calculate
 			for(Index i = 1; i < M.rows(); ++i)
 			{
-- 
2.43.0


From fa58ab679fafa188b32f3f40c0399a15cb25ba6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 12/47] fix: orthogonality checks of fixed matrices were
 declared but never defined

---
 src/lib/matrix/MatrixCheck.inl | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/lib/matrix/MatrixCheck.inl b/src/lib/matrix/MatrixCheck.inl
index 7d711ce..153b9d8 100644
--- a/src/lib/matrix/MatrixCheck.inl
+++ b/src/lib/matrix/MatrixCheck.inl
@@ -16,10 +16,13 @@ namespace Check
 		return (m.mul(m.transpose())) == Construct::eye<M, T>(m.rows(), m.columns());
 	}
 
-	template<typename T, Dimension K>
-	bool matrixIsOrthogonal(const FixedMatrix<T,K,K>& m)
+	template<typename T, Dimension K1, Dimension K2>
+	bool matrixIsOrthogonal(const FixedMatrix<T,K1,K2>& m)
 	{
-		return (m.mul(m.transpose())) == Construct::eye<T,K,K>();
+		if (K1 != K2)// Not square
+			return false;
+
+		return (m.mul(m.transpose())) == Construct::eye<T,K1,K1>();
 	}
 
 	template<template<typename> class M, typename T>
@@ -32,10 +35,13 @@ namespace Check
 		return (m.mul(m.adjugate())) == Construct::eye<M, T>(m.rows(), m.columns());
 	}
 
-	template<typename T, Dimension K>
-	bool matrixIsUnitary(const FixedMatrix<T,K,K>& m)
+	template<typename T, Dimension K1, Dimension K2>
+	bool matrixIsUnitary(const FixedMatrix<T,K1,K2>& m)
 	{
-		return (m.mul(m.adjugate())) == Construct::eye<T,K,K>();
+		if (K1 != K2)// Not square
+			return false;
+
+		return (m.mul(m.adjugate())) == Construct::eye<T,K1,K1>();
 	}
 
 	template<class M>
-- 
2.43.0


From b66d29435a5fdb8fc78a074c087d848c4f51e455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 13/47] fix: matrix conversion used types that do not exist

---
 src/lib/matrix/MatrixConverter.h   | 2 +-
 src/lib/matrix/MatrixConverter.inl | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/matrix/MatrixConverter.h b/src/lib/matrix/MatrixConverter.h
index 7742352..ead470c 100644
--- a/src/lib/matrix/MatrixConverter.h
+++ b/src/lib/matrix/MatrixConverter.h
@@ -20,7 +20,7 @@ namespace Convert
 	* @return The new dense matrix.
 	*/
 	template<typename T>
-	DynamicMatrix<T> toDenseMatrix(const SparseMatrix<T>& m);
+	DenseMatrix<T> toDenseMatrix(const SparseMatrix<T>& m);
 }
 
 NS_END_NAMESPACE
diff --git a/src/lib/matrix/MatrixConverter.inl b/src/lib/matrix/MatrixConverter.inl
index 1c38a06..0a45eae 100644
--- a/src/lib/matrix/MatrixConverter.inl
+++ b/src/lib/matrix/MatrixConverter.inl
@@ -24,9 +24,9 @@ namespace Convert
 	}
 
 	template<typename T>
-	DynamicMatrix<T> toDenseMatrix(const SparseMatrix<T>& m)
+	DenseMatrix<T> toDenseMatrix(const SparseMatrix<T>& m)
 	{
-		Matrix<T> res(m.rows(), m.columns());
+		DenseMatrix<T> res(m.rows(), m.columns());
 		for (auto it = m.begin(); it != m.end(); ++it)
 		{
 			res.set(it.row(), it.column(), *it);
-- 
2.43.0


From f4e62ff37c34b3075b244f5ed811a2b2de33b99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:47 +0000
Subject: [PATCH 14/47] fix: Cuthill-McKee ordering of matrices with empty rows
 was no permutation

---
 src/lib/matrix/MatrixOrder.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib/matrix/MatrixOrder.inl b/src/lib/matrix/MatrixOrder.inl
index a665e96..37e4b2d 100644
--- a/src/lib/matrix/MatrixOrder.inl
+++ b/src/lib/matrix/MatrixOrder.inl
@@ -29,8 +29,7 @@ DynamicVector<Index> cuthill_mckee(const SparseMatrix<T>& m)
 	for(Index i = 0; i < m.rows(); ++i)
 	{
 		Index mc = m.row_filled_count(i);
-		if(mc > 0)
-			Rows.insert(std::pair<Dimension, Index>(mc, i));
+		Rows.insert(std::pair<Dimension, Index>(mc, i));// Empty rows are part of the ordering too
 	}
 	
 	while(!Rows.empty())
-- 
2.43.0


From 2cf96781f4ea341263dd4e09efd1c5d3a0b7473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 15/47] fix: permutating a vector used the inverse of the
 ordering used for matrices

---
 src/lib/matrix/MatrixOrder.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/matrix/MatrixOrder.inl b/src/lib/matrix/MatrixOrder.inl
index 37e4b2d..fbb8bc7 100644
--- a/src/lib/matrix/MatrixOrder.inl
+++ b/src/lib/matrix/MatrixOrder.inl
@@ -143,7 +143,7 @@ DynamicVector<T> permutate(const DynamicVector<T>& m, const DynamicVector<Index>
 
 	DynamicVector<T> nm(m.size());
 	for(Index i = 0; i < m.size(); ++i)
-		nm.set(permutation[i], m[i]);
+		nm.set(i, m[permutation[i]]);// As the permutation matrix does
 
 	return nm;
 }
-- 
2.43.0


From 9a7fa886e015d8e93a54293539c2c5efb3fe807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 16/47] fix: inverse_permutation broke linking when its header
 was included twice

---
 src/lib/matrix/MatrixOrder.h   | 2 +-
 src/lib/matrix/MatrixOrder.inl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/matrix/MatrixOrder.h b/src/lib/matrix/MatrixOrder.h
index a02d229..c18af48 100644
--- a/src/lib/matrix/MatrixOrder.h
+++ b/src/lib/matrix/MatrixOrder.h
@@ -28,7 +28,7 @@ DynamicVector<Index> r_cuthill_mckee(const SparseMatrix<T>& m);
 template<typename T>
 SparseMatrix<T> permutation_matrix(const DynamicVector<Index>& permutation);
 
-DynamicVector<Index> inverse_permutation(const DynamicVector<Index>& permutation);
+inline DynamicVector<Index> inverse_permutation(const DynamicVector<Index>& permutation);
 
 /**
 * @brief Reorders the given matrix based on the permuation
diff --git a/src/lib/matrix/MatrixOrder.inl b/src/lib/matrix/MatrixOrder.inl
index fbb8bc7..e30a911 100644
--- a/src/lib/matrix/MatrixOrder.inl
+++ b/src/lib/matrix/MatrixOrder.inl
@@ -113,7 +113,7 @@ SparseMatrix<T> permutation_matrix(const DynamicVector<Index>& permutation)
 	return nm;
 }
 
-DynamicVector<Index> inverse_permutation(const DynamicVector<Index>& permutation)
+inline DynamicVector<Index> inverse_permutation(const DynamicVector<Index>& permutation)
 {
 	DynamicVector<Index> np(permutation.size());
 	for(Index i = 0; i < permutation.size(); ++i)
-- 
2.43.0


From fd060a4583efe90582cce855f081f7bceb1b462d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:16 +0000
Subject: [PATCH 17/47] fix: LU decomposition of singular matrices leaked its
 row table

---
 src/lib/LU.inl | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index 9586718..18eee31 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -63,7 +63,7 @@ namespace LU {
 			if(pivotCount)
 				*pivotCount = 0;
 
-			Index* rowTable = new Index[n];
+			std::vector<Index> rowTable(n);
 			for (Index i = 0; i < n; ++i)
 			{
 				L.set(i, i, (T)1);
@@ -127,8 +127,6 @@ namespace LU {
 			// Build pivot matrix
 			for (Index i = 0; i < n; ++i)
 				P.set(i,rowTable[i], (T)1);
-			
-			delete[] rowTable;
 		}
 
 		/* TODO: Optimize*/
@@ -146,7 +144,7 @@ namespace LU {
 			if(pivotCount)
 				*pivotCount = 0;
 
-			Index* rowTable = new Index[n];
+			std::vector<Index> rowTable(n);
 			for (Index i = 0; i < n; ++i)
 			{
 				L.set(i, i, (T)1);
@@ -211,8 +209,6 @@ namespace LU {
 			P = SparseMatrix<T>(n,n);
 			for (Index i = 0; i < n; ++i)
 				P.set(i,rowTable[i], (T)1);
-			
-			delete[] rowTable;
 		}
 
 		template<typename T>
-- 
2.43.0


From 650ffcdf8a6e177cbf5e7f802e541bb92df4c158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:16 +0000
Subject: [PATCH 18/47] fix: dense LU decomposition mixed its result into what
 the output matrices held before

---
 src/lib/LU.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index 18eee31..d9c62fa 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -66,6 +66,11 @@ namespace LU {
 			std::vector<Index> rowTable(n);
 			for (Index i = 0; i < n; ++i)
 			{
+				for (Index j = 0; j < n; ++j)// Outputs may contain anything
+				{
+					L.set(i, j, (T)0);
+					P.set(i, j, (T)0);
+				}
 				L.set(i, i, (T)1);
 				rowTable[i] = i;
 			}
-- 
2.43.0


From 0791cacf7e5b74ed2cfd8d1f478535a80b9d44a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 19/47] fix: inverse from triangular factors divided the wrong
 entries

---
 src/lib/matrix/MatrixOperations.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/matrix/MatrixOperations.inl b/src/lib/matrix/MatrixOperations.inl
index f06e221..45dbec3 100644
--- a/src/lib/matrix/MatrixOperations.inl
+++ b/src/lib/matrix/MatrixOperations.inl
@@ -99,7 +99,7 @@ namespace Operations
 				if(std::abs(mid) <= std::numeric_limits<typename get_complex_internal<T>::type>::epsilon())
 					throw SingularException();
 				
-				Inv.set(j,j, Inv.at(j,j) / mid);
+				Inv.set(j,i, Inv.at(j,i) / mid);
 
 				if(j == 0)
 					break;
-- 
2.43.0


From e8c19a605d1bb924bc1061969c4d4af19b646989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:00 +0000
Subject: [PATCH 20/47] fix: parts of dynamic vectors were written into an
 empty vector

---
 src/lib/Vector.h   |  1 +
 src/lib/Vector.inl | 27 +++++++++++++++++++++------
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/lib/Vector.h b/src/lib/Vector.h
index b304074..c6df326 100644
--- a/src/lib/Vector.h
+++ b/src/lib/Vector.h
@@ -3,6 +3,7 @@
 #include "CountableSet.h"
 
 #include "Exceptions.h"
+#include "Utils.h"
 
 NS_BEGIN_NAMESPACE
 
diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index 4c6be8e..c927535 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -92,25 +92,40 @@ Vector<T,DC> Vector<T,DC>::normalized() const
 }
 
 // Boolean set operations
-// NOT WORKING
+// Results of dynamic vectors are as long as the part they contain, fixed vectors keep their size and are filled with zeros
+namespace internal
+{
+	template<typename T>
+	void make_part(DynamicVector<T>& v, Dimension size)
+	{
+		v.resize(size);
+	}
+
+	template<typename T, class DC>
+	void make_part(Vector<T,DC>&, Dimension)
+	{
+	}
+}
+
 template<typename T, class DC>
 Vector<T,DC> Vector<T,DC>::left(Index i) const
 {
 	NS_ASSERT(i < this->size());
-	Vector<T,DC> tmp;//Size i+1
+	Vector<T,DC> tmp;
+	internal::make_part(tmp, i + 1);
 	for (Index j = 0; j < i + 1; ++j)
 		tmp.set(j, at(j));
 
 	return tmp;
 }
 
-// NOT WORKING
 template<typename T, class DC>
 Vector<T,DC> Vector<T,DC>::right(Index i) const
 {
 	NS_ASSERT(i < this->size());
 	
-	Vector<T,DC> tmp;//(this->size() - i)
+	Vector<T,DC> tmp;
+	internal::make_part(tmp, this->size() - i);
 
 	for (Index j = i; j < this->size(); ++j)
 		tmp.set(j - i, at(j));
@@ -118,13 +133,13 @@ Vector<T,DC> Vector<T,DC>::right(Index i) const
 	return tmp;
 }
 
-// NOT WORKING
 template<typename T, class DC>
 Vector<T,DC> Vector<T,DC>::mid(Index start, Index end) const
 {
 	NS_ASSERT(start < end);
 
-	Vector<T,DC> tmp;//(end-start)
+	Vector<T,DC> tmp;
+	internal::make_part(tmp, start < this->size() ? t_min(end, this->size()) - start : 0);
 	for (Index i = start; i < end && i < this->size(); ++i)
 		tmp.set(i - start, at(i));
 
-- 
2.43.0


From e926f3744c3f514f3e9b48d3e7883649c2414bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:50 +0000
Subject: [PATCH 21/47] fix: Cholesky factorisation accepted singular matrices,
 ignored conjugation and mixed in what the output held before

---
 src/lib/LU.inl | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index d9c62fa..027a9ec 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -27,20 +27,21 @@ namespace LU {
 				for (Index k = 0; k < j; ++k)
 				{
 					T v = L.at(j, k);
-					s += v*v;
+					s += v*complex_conj(v);
 				}
 
 				s = m.at(j, j) - s;
-				if (!sqrt_allowed(s))
+				if (!(std::real(s) > 0))
 					throw NotPositiveDefiniteException();
 
 				L.set(j, j, std::sqrt(s));
-				for (Index i = j; i < L.rows(); ++i)
+				for (Index i = j + 1; i < L.rows(); ++i)
 				{
 					s = (T)0;
-					for (Index k = 0; k < i; ++k)
-						s += L.at(i, k)*L.at(j, k);
+					for (Index k = 0; k < j; ++k)
+						s += L.at(i, k)*complex_conj(L.at(j, k));
 					L.set(i, j, (m.at(i, j) - s) / L.at(j, j));
+					L.set(j, i, (T)0);
 				}
 			}
 		}
-- 
2.43.0


From 37a2564b3e81b29f20739cbf67b23db812279236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:16 +0000
Subject: [PATCH 22/47] fix: inverses of triangular factors were wrong and
 mixed in what the outputs held before

---
 src/lib/LU.inl | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index 027a9ec..135ad50 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -348,11 +348,14 @@ namespace LU {
 			for(Index k = 0; k < N; ++k)
 			{
 				// L
-				invL.set(k,k, 1);// Assuming L has only ones as diagonal entries
+				for(Index i = 0; i < k; ++i)
+					invL.set(i,k, (T)0);
+
+				invL.set(k,k, (T)1);// Assuming L has only ones as diagonal entries
 
 				for(Index i = k+1; i < N; ++i)
 				{
-					T m = invL.at(i,k);
+					T m = (T)0;
 
 					auto it = L.row_begin(i);
 					while(it != L.row_end(i) && it.column() < k)// Skipping. Is zero
@@ -365,11 +368,12 @@ namespace LU {
 				}
 
 				// U
-				invU.set(k,k, 1/U.at(k,k));
-				
-				for(Index i = (N-1)-k; ; --i)
+				for(Index i = k+1; i < N; ++i)
+					invU.set(i,k, (T)0);
+
+				for(Index i = k; ; --i)
 				{
-					T m = invU.at(i,k);
+					T m = (i == k) ? (T)1 : (T)0;
 
 					auto it = U.row_begin(i);
 					while(it != U.row_end(i) && it.column() < i+1)// Skipping. Is zero
-- 
2.43.0


From 484043d589442cc15117b4ff5b446cb41be5c84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 23/47] fix: stationary iterations returned infinities for most
 matrices with a zero on the diagonal

---
 src/lib/Iterative.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/Iterative.inl b/src/lib/Iterative.inl
index 19a1cdb..4bf6d90 100644
--- a/src/lib/Iterative.inl
+++ b/src/lib/Iterative.inl
@@ -39,6 +39,9 @@ namespace Iterative
 							mid = *rit;
 					}
 
+					if (mid == (T)0)
+						throw MatrixHasZeroInDiagException();
+
 					xm.set(i, (b.at(i) - t) / mid);
 				}
 
@@ -100,6 +103,9 @@ namespace Iterative
 							mid = *rit;
 					}
 
+					if (mid == (T)0)
+						throw MatrixHasZeroInDiagException();
+
 					t = (b.at(i) - t) / mid;
 					xm.set(i, rweight*xm.at(i) + weight*t);
 				}
-- 
2.43.0


From 860f1216d57891435137dd31eda95cc9775b5d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 24/47] fix: first sweep of successive over-relaxation ignored
 the start vector

---
 src/lib/Iterative.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Iterative.inl b/src/lib/Iterative.inl
index 4bf6d90..732516f 100644
--- a/src/lib/Iterative.inl
+++ b/src/lib/Iterative.inl
@@ -107,7 +107,7 @@ namespace Iterative
 						throw MatrixHasZeroInDiagException();
 
 					t = (b.at(i) - t) / mid;
-					xm.set(i, rweight*xm.at(i) + weight*t);
+					xm.set(i, rweight*x.at(i) + weight*t);
 				}
 
 				auto conv = std::abs((xm - x).magSqr());
-- 
2.43.0


From e8ce68de8a1e9e86e1fb47c016a49e9548dc7122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 25/47] fix: conjugate gradient method built its search
 direction from the residual

---
 src/lib/CG.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/CG.inl b/src/lib/CG.inl
index 7678225..f80d5e0 100644
--- a/src/lib/CG.inl
+++ b/src/lib/CG.inl
@@ -42,7 +42,7 @@ namespace CG {
 
 				const typename V2::value_type bk = ls / rs;
 
-				p = l + bk*r;
+				p = l + bk*p;
 				r = l;
 				rs = ls;
 			}
-- 
2.43.0


From 5b73369467e2965c358414a0b23545232584968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 26/47] fix: conjugate gradient methods divided by zero when
 the system was solved already

---
 src/lib/CG.inl | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/lib/CG.inl b/src/lib/CG.inl
index f80d5e0..a1a1310 100644
--- a/src/lib/CG.inl
+++ b/src/lib/CG.inl
@@ -29,7 +29,7 @@ namespace CG {
 
 			V2 l;
 			size_t k = 0;
-			for (; k < maxIter; ++k)
+			while (k < maxIter && rs > eps2)
 			{
 				const auto t = a.mul(p);
 				const typename M::value_type ak = rs / (t.dot(p));
@@ -37,18 +37,16 @@ namespace CG {
 				l = r - ak*t;
 
 				const auto ls = l.magSqr();
-				if (ls < eps2 || k == maxIter-1)
-					break;
-
 				const typename V2::value_type bk = ls / rs;
 
 				p = l + bk*p;
 				r = l;
 				rs = ls;
+				++k;
 			}
 
 			if (it_stat)
-				*it_stat = k + 1;
+				*it_stat = k;
 
 			return x;
 		}
@@ -81,15 +79,13 @@ namespace CG {
 			auto l1 = r.dot(z);
 			auto l2 = l1;
 			size_t k = 0;
-			for (; k < maxIter; ++k)
+			while (k < maxIter && r.magSqr() > eps2)
 			{
 				const auto t = a.mul(p);
 				const typename M::value_type ak = l1 / (t.dot(p));
 				x += ak*p;
 				r -= ak*t;
-
-				if (r.magSqr() < eps2 || k == maxIter-1)
-					break;
+				++k;
 
 				z = c.mul(r);
 				l2 = r.dot(z);
@@ -98,7 +94,7 @@ namespace CG {
 			}
 
 			if (it_stat)
-				*it_stat = k + 1;
+				*it_stat = k;
 
 			return x;
 		}
-- 
2.43.0


From 1559807270837cdba34887bf683e4d0eaf763262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 27/47] fix: Jacobi preconditioner did not compile for complex
 matrices

---
 src/lib/CG.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/CG.inl b/src/lib/CG.inl
index a1a1310..74e654c 100644
--- a/src/lib/CG.inl
+++ b/src/lib/CG.inl
@@ -118,7 +118,7 @@ namespace CG {
 				const auto mid = A.at(i,i);
 				if(std::abs(mid) <= std::numeric_limits<typename get_complex_internal<T>::type>::epsilon())
 					throw SingularException();
-				C.set(i,i, 1/mid);
+				C.set(i,i, (T)1/mid);
 			}
 		}
 	}
-- 
2.43.0


From 8378a0a6a353dc877544e2d41ac4b6b5f8a8d5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:25 +0000
Subject: [PATCH 28/47] fix: stationary iterations on complex vectors could
 stop at a large change

---
 src/lib/Iterative.inl | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/Iterative.inl b/src/lib/Iterative.inl
index 732516f..6193f48 100644
--- a/src/lib/Iterative.inl
+++ b/src/lib/Iterative.inl
@@ -45,7 +45,10 @@ namespace Iterative
 					xm.set(i, (b.at(i) - t) / mid);
 				}
 
-				auto conv = std::abs((xm - x).magSqr());
+				typename get_complex_internal<T>::type conv = 0;
+				for (Index i = 0; i < xm.size(); ++i)
+					conv += std::norm(xm.at(i) - x.at(i));
+
 				if (std::isnan(conv))
 					throw MatrixHasZeroInDiagException();
 
@@ -110,7 +113,10 @@ namespace Iterative
 					xm.set(i, rweight*x.at(i) + weight*t);
 				}
 
-				auto conv = std::abs((xm - x).magSqr());
+				typename get_complex_internal<T>::type conv = 0;
+				for (Index i = 0; i < xm.size(); ++i)
+					conv += std::norm(xm.at(i) - x.at(i));
+
 				if (std::isnan(conv))
 					throw MatrixHasZeroInDiagException();
 
-- 
2.43.0


From ca4208603686918a3d77045f36afb67e4538cf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 29/47] fix: centre of simplices was neither scaled nor placed
 right

---
 src/lib/Simplex.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Simplex.inl b/src/lib/Simplex.inl
index 0dc69b0..c6550d8 100644
--- a/src/lib/Simplex.inl
+++ b/src/lib/Simplex.inl
@@ -83,7 +83,7 @@ typename Simplex<T,K>::vertex_t Simplex<T,K>::center() const
 	vertex_t v;
 	v[0] = b[1]*a.magSqr() - a[1]*b.magSqr();
 	v[1] = a[0]*b.magSqr() - b[0]*a.magSqr();
-	return v / (T)2 * mDeterminant;
+	return v / ((T)2 * mDeterminant) + mVertices[0];
 }
 
 template<typename T, Dimension K>
-- 
2.43.0


From 7f8e32695f7a33f762dfa15b25c252dc9d10cd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 30/47] fix: last vertex of new mesh edges was uninitialised

---
 src/lib/mesh/Mesh.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index 7d85878..c392c29 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -30,7 +30,7 @@ MeshVertex<T,K>::MeshVertex(const FixedVector<T,K>& vertex) :
 template<typename T, Dimension K>
 MeshEdge<T,K>::MeshEdge()
 {
-	for(Index i = 0; i < K-1; ++i)
+	for(Index i = 0; i < K; ++i)
 		Vertices[i] = nullptr;
 	
 	Elements[0] = nullptr;
-- 
2.43.0


From 1248803062a7af4b963ef5473d0c6bd820f769a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 31/47] fix: edges of meshes were never released and survived
 clearing

---
 src/lib/mesh/Mesh.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index c392c29..73eeda8 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -124,6 +124,10 @@ void Mesh<T,K>::clear()
 	for(auto ptr : mData->Elements)
 		delete ptr;
 	mData->Elements.clear();
+
+	for(auto ptr : mData->Edges)
+		delete ptr;
+	mData->Edges.clear();
 }
 
 template<typename T, Dimension K>
-- 
2.43.0


From 6d6e6808482ef462878c97d9c5261ce3246316d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 32/47] fix: assigning a mesh to itself released its parts

---
 src/lib/mesh/Mesh.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index 73eeda8..64b46e5 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -77,6 +77,9 @@ Mesh<T,K>::~Mesh()
 template<typename T, Dimension K>
 Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
 {
+	if(this == &other)
+		return *this;
+
 	if(mData)
 	{
 		NS_ASSERT(mData->Refs > 0);
@@ -97,6 +100,9 @@ Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
 template<typename T, Dimension K>
 Mesh<T,K>& Mesh<T,K>::operator =(Mesh<T,K>&& other)
 {
+	if(this == &other)
+		return *this;
+
 	if(mData)
 	{
 		NS_ASSERT(mData->Refs > 0);
-- 
2.43.0


From c4ec2cc0a7a8afc04892ef508bd7f8fd15bac55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 33/47] fix: copying a moved mesh accessed a null pointer

---
 src/lib/mesh/Mesh.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index 64b46e5..c4c848d 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -49,7 +49,8 @@ template<typename T, Dimension K>
 Mesh<T,K>::Mesh(const Mesh<T,K>& other)
 {
 	mData = other.mData;
-	mData->Refs++;
+	if(mData)
+		mData->Refs++;
 }
 
 template<typename T, Dimension K>
@@ -92,7 +93,8 @@ Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
 	}
 
 	mData = other.mData;
-	mData->Refs++;
+	if(mData)
+		mData->Refs++;
 	
 	return *this;
 }
-- 
2.43.0


From 76a75c3521720727d760b9d9bf23ef400e31661a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 34/47] fix: generated grids with different subdivisions per
 axis left the box

---
 src/lib/mesh/HyperCube.inl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib/mesh/HyperCube.inl b/src/lib/mesh/HyperCube.inl
index 6bfa5db..ca8b386 100644
--- a/src/lib/mesh/HyperCube.inl
+++ b/src/lib/mesh/HyperCube.inl
@@ -40,10 +40,10 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 	ey.fill((T)0);
 	ey[1] = size[1]/(T)elements[1];
 	
-	MV** lastRowVertices = new MV*[elements[1]+1];
+	MV** lastRowVertices = new MV*[elements[0]+1];
 
 	// Generate first row
-	for(Index j = 0; j <= elements[1]; ++j)
+	for(Index j = 0; j <= elements[0]; ++j)
 	{
 		MV* v = new MV(offset + ex*(T)j);
 		v->Flags |= MVF_StrongBoundary;
@@ -52,7 +52,7 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 	}
 
 	// Iterate over rows
-	for(Index i = 1; i <= elements[0]; ++i)
+	for(Index i = 1; i <= elements[1]; ++i)
 	{
 		const auto py = ey*(T)i;
 		MV* lastVertex = new MV(offset + py);
@@ -60,7 +60,7 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 
 		mesh.addVertex(lastVertex);
 
-		for(Index j = 1; j <= elements[1]; ++j)
+		for(Index j = 1; j <= elements[0]; ++j)
 		{
 			MV* v = new MV(offset + ex*(T)j + py);
 			mesh.addVertex(v);
@@ -83,11 +83,11 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 
 		lastVertex->Flags |= MVF_StrongBoundary;// Set last column as boundary
 
-		lastRowVertices[elements[1]] = lastVertex;
+		lastRowVertices[elements[0]] = lastVertex;
 	}
 
 	// Set last row as boundary
-	for(Index j = 0; j <= elements[1]; ++j)
+	for(Index j = 0; j <= elements[0]; ++j)
 		lastRowVertices[j]->Flags |= MVF_StrongBoundary;
 
 
-- 
2.43.0


From a65cc109f1b3765489d4f548ff61481b4255c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 35/47] fix: shape functions of third order and in space
 accessed coefficients out of range

---
 src/lib/sf/PolyShapeFunction.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/sf/PolyShapeFunction.h b/src/lib/sf/PolyShapeFunction.h
index 8911902..0307910 100644
--- a/src/lib/sf/PolyShapeFunction.h
+++ b/src/lib/sf/PolyShapeFunction.h
@@ -14,7 +14,8 @@ template<typename T, Dimension K, Dimension Order>
 class PolyShapePolicy
 {
 public:
-	static constexpr Dimension DOF = (K+1)*Order;// Wrong, but works for Order < 3
+	static constexpr Dimension DOF = Order == 1 ? K+1 :
+		(Order == 2 ? (K+1)*(K+2)/2 : (K+1)*(K+2)*(K+3)/6);
 
 	// For the standard k-simplex
 	T value(Index localComponent, const FixedVector<T,K>& local) const;
-- 
2.43.0


From 68925be43aa4e5eea509263675e38b3045801cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 36/47] fix: nodes of second order line shape functions were
 not in the documented order

---
 src/lib/sf/PolyShapeFunction.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sf/PolyShapeFunction.inl b/src/lib/sf/PolyShapeFunction.inl
index c89473e..01f279e 100644
--- a/src/lib/sf/PolyShapeFunction.inl
+++ b/src/lib/sf/PolyShapeFunction.inl
@@ -13,7 +13,7 @@ NS_BEGIN_NAMESPACE
 constexpr float PSF_Coeff_1D_1[2][2] = {{1, -1}, {0,1}};
 
 // Second Order: x0 --x2-- x1
-constexpr float PSF_Coeff_1D_2[3][3] = {{1, -3, 2}, {0, 4, -4}, {0, -1, 2}};
+constexpr float PSF_Coeff_1D_2[3][3] = {{1, -3, 2}, {0, -1, 2}, {0, 4, -4}};
 
 // ----------- 2-Simplex (Triangle) [Multivariate Polynomial] -----------
 // First Order:
-- 
2.43.0


From 9ad2f2cb63c15019bee944e1b021a9f8f8cd3e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 37/47] fix: second derivative of third order shape functions
 used the wrong coordinate

---
 src/lib/sf/PolyShapeFunction.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sf/PolyShapeFunction.inl b/src/lib/sf/PolyShapeFunction.inl
index 01f279e..ee1034e 100644
--- a/src/lib/sf/PolyShapeFunction.inl
+++ b/src/lib/sf/PolyShapeFunction.inl
@@ -328,7 +328,7 @@ FixedVector<T,K> PolyShapePolicy<T,K,Order>::gradient2(Index localComponent, con
                 + nodeValues[6]*2*PSF_Coeff_2D_3[localComponent][6]*local[1]
                 + nodeValues[8]*6*PSF_Coeff_2D_3[localComponent][8]*local[0];
             g[1] = nodeValues[5]*2*PSF_Coeff_2D_3[localComponent][5]
-                + nodeValues[7]*2*PSF_Coeff_2D_3[localComponent][7]*local[1]
+                + nodeValues[7]*2*PSF_Coeff_2D_3[localComponent][7]*local[0]
                 + nodeValues[9]*6*PSF_Coeff_2D_3[localComponent][9]*local[1];
         }
     }
-- 
2.43.0


From b7a621ef623964ec9e427750cb394b8ed1f81fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 38/47] fix: gradient of first order triangle shape functions
 scaled by an unrelated node value

---
 src/lib/sf/PolyShapeFunction.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/sf/PolyShapeFunction.inl b/src/lib/sf/PolyShapeFunction.inl
index ee1034e..495ebdc 100644
--- a/src/lib/sf/PolyShapeFunction.inl
+++ b/src/lib/sf/PolyShapeFunction.inl
@@ -211,8 +211,8 @@ FixedVector<T,K> PolyShapePolicy<T,K,Order>::gradient(Index localComponent, cons
         if(Order == 1)
         {
             NS_ASSERT(localComponent < 3);
-            g[0] = nodeValues[1]*nodeValues[0]*PSF_Coeff_2D_1[localComponent][1];
-            g[1] = nodeValues[2]*nodeValues[0]*PSF_Coeff_2D_1[localComponent][2];
+            g[0] = nodeValues[1]*PSF_Coeff_2D_1[localComponent][1];
+            g[1] = nodeValues[2]*PSF_Coeff_2D_1[localComponent][2];
         }
         else if(Order == 2)
         {
-- 
2.43.0


From a8dc21e1941079e7adb0c1f545cee1cd0e59ba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:50 +0000
Subject: [PATCH 39/47] fix: binom ran away or returned garbage when choosing
 more elements than available

---
 src/lib/Utils.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/Utils.h b/src/lib/Utils.h
index b677078..b0ecbc3 100644
--- a/src/lib/Utils.h
+++ b/src/lib/Utils.h
@@ -45,8 +45,11 @@ namespace Math
 		if (k == 0)
 			return 1;
 
-		if (2 * (T)k > n)//Really cast to T? What is with signed?
-			return binom(n, static_cast<k_t>(n - k));
+		if (n < (T)0 || k > static_cast<k_t>(n))// Not enough elements to choose from
+			return 0;
+
+		if (k > static_cast<k_t>(n) / 2)
+			return binom(n, static_cast<k_t>(static_cast<k_t>(n) - k));
 
 		T v = n - k + 1;
 		for (k_t i = 2; i <= k; ++i)
-- 
2.43.0


From 541a5b2a80c161356d2ca72cf0310fe9595c81c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:50 +0000
Subject: [PATCH 40/47] fix: binom overflowed in intermediate values although
 the result fits

---
 src/lib/Utils.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib/Utils.h b/src/lib/Utils.h
index b0ecbc3..93188f0 100644
--- a/src/lib/Utils.h
+++ b/src/lib/Utils.h
@@ -54,8 +54,17 @@ namespace Math
 		T v = n - k + 1;
 		for (k_t i = 2; i <= k; ++i)
 		{
-			v *= (n - k + i);
-			v /= i;
+			// Cancel before multiplying, else intermediate values do not fit even if the result does
+			k_t a = static_cast<k_t>(v);
+			k_t b = i;
+			while (b != 0)
+			{
+				const k_t r = a % b;
+				a = b;
+				b = r;
+			}
+
+			v = (v / a) * ((n - k + i) / (i / a));
 		}
 
 		return v;
-- 
2.43.0


From 3f480e3505cdc1b14c1a21ba004cb3782f108a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 41/47] fix: triangle loader read outside its data, reused or
 invented numbers and accepted unknown vertices on malformed files

---
 src/lib/loader/MeshTriangleLoader.h   |  3 +-
 src/lib/loader/MeshTriangleLoader.inl | 83 +++++++++++++++------------
 2 files changed, 49 insertions(+), 37 deletions(-)

diff --git a/src/lib/loader/MeshTriangleLoader.h b/src/lib/loader/MeshTriangleLoader.h
index d5badfd..5f5997f 100644
--- a/src/lib/loader/MeshTriangleLoader.h
+++ b/src/lib/loader/MeshTriangleLoader.h
@@ -2,6 +2,7 @@
 
 #include "mesh/Mesh.h"
 
+#include <algorithm>
 #include <sstream>
 #include <fstream>
 #include <streambuf>
@@ -24,7 +25,7 @@ private:
 		std::string::const_iterator end);
 	
 	template<typename T2>
-	static T2 extractFirstNumber(std::string::const_iterator& it,
+	static bool extractFirstNumber(T2& ret, std::string::const_iterator& it,
 		std::string::const_iterator end);
 
 	static void setupNode(Mesh<T,2>& mesh, const std::string& nodeStr);
diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index 5449ec9..67726a3 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -46,22 +46,25 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 
 		if(parseMode == 0)//First Line
 		{
-			size_t nodes = extractFirstNumber<size_t>(it, line.end());
-
-			if(nodes == 0)
+			size_t nodes = 0;
+			if(!extractFirstNumber(nodes, it, line.end()) || nodes == 0)
 				throw LoadTriangleNodeErrorException();
 
+			int dimension = 0;
 			skipWS(it, line.end());
-			if(it == line.end() || extractFirstNumber<int>(it, line.end()) != 2)
+			if(!extractFirstNumber(dimension, it, line.end()) || dimension != 2)
 				throw LoadTriangleNodeErrorException();
 			
-			mesh.reserveVertices(nodes);
+			mesh.reserveVertices(std::min(nodes, nodeStr.size()));
 			// Everything else is ignored!
 			parseMode = 1;
 		}
 		else// Vertices
 		{
-			size_t index = extractFirstNumber<size_t>(it, line.end());
+			size_t index = 0;
+			if(!extractFirstNumber(index, it, line.end()))
+				throw LoadTriangleNodeErrorException();
+
 			if(index == 0)
 				indexShift = 0;
 			
@@ -70,17 +73,15 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 			nextIndex = index-indexShift + 1;
 			
 			skipWS(it, line.end());
-			if(it == line.end())
+			T e1 = 0;
+			if(!extractFirstNumber(e1, it, line.end()))
 				throw LoadTriangleNodeErrorException();
-			
-			T e1 = extractFirstNumber<T>(it, line.end());
 
 			skipWS(it, line.end());
-			if(it == line.end())
+			T e2 = 0;
+			if(!extractFirstNumber(e2, it, line.end()))
 				throw LoadTriangleNodeErrorException();
 
-			T e2 = extractFirstNumber<T>(it, line.end());
-
 			// Everything else is ignored
 
 			MeshVertex<T,2>* mv = new MeshVertex<T,2>(FixedVector<T,2>{e1,e2});
@@ -108,49 +109,54 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 
 		if(parseMode == 0)//First Line
 		{
-			size_t nodes = extractFirstNumber<size_t>(it, line.end());
-
-			if(nodes == 0)
+			size_t elements = 0;
+			if(!extractFirstNumber(elements, it, line.end()) || elements == 0)
 				throw LoadTriangleElementErrorException();
 
+			int nodes = 0;
 			skipWS(it, line.end());
-			if(it == line.end() || extractFirstNumber<int>(it, line.end()) != 3)
+			if(!extractFirstNumber(nodes, it, line.end()) || nodes != 3)
 				throw LoadTriangleElementErrorException();
 			
-			mesh.reserveVertices(nodes);
+			mesh.reserveElements(std::min(elements, eleStr.size()));
 			// Everything else is ignored!
 			parseMode = 1;
 		}
 		else// Vertices
 		{
-			size_t index = extractFirstNumber<size_t>(it, line.end());
+			size_t index = 0;
+			if(!extractFirstNumber(index, it, line.end()))
+				throw LoadTriangleElementErrorException();
+
 			if(index == 0)
 				indexShift = 0;
 			
 			if(index-indexShift != nextIndex)
-				throw LoadTriangleNodeErrorException();
+				throw LoadTriangleElementErrorException();
 			nextIndex = index-indexShift + 1;
 			
 			skipWS(it, line.end());
-			if(it == line.end())
-				throw LoadTriangleNodeErrorException();
-			
-			size_t i1 = extractFirstNumber<size_t>(it, line.end());
+			size_t i1 = 0;
+			if(!extractFirstNumber(i1, it, line.end()))
+				throw LoadTriangleElementErrorException();
 
 			skipWS(it, line.end());
-			if(it == line.end())
-				throw LoadTriangleNodeErrorException();
-
-			size_t i2 = extractFirstNumber<size_t>(it, line.end());
+			size_t i2 = 0;
+			if(!extractFirstNumber(i2, it, line.end()))
+				throw LoadTriangleElementErrorException();
 
 			skipWS(it, line.end());
-			if(it == line.end())
-				throw LoadTriangleNodeErrorException();
-
-			size_t i3 = extractFirstNumber<size_t>(it, line.end());
+			size_t i3 = 0;
+			if(!extractFirstNumber(i3, it, line.end()))
+				throw LoadTriangleElementErrorException();
 
 			// Everything else is ignored
 
+			if(i1-indexShift >= mesh.vertices().size() ||
+				i2-indexShift >= mesh.vertices().size() ||
+				i3-indexShift >= mesh.vertices().size())
+				throw LoadTriangleElementErrorException();
+
 			MeshElement<T,2>* me = new MeshElement<T,2>();
 			me->Vertices[0] = mesh.vertex(i1-indexShift);
 			me->Vertices[1] = mesh.vertex(i2-indexShift);
@@ -181,15 +187,20 @@ void MeshTriangleLoader<T>::skipWS(std::string::const_iterator& it,
 
 template<typename T>
 template<typename T2>
-T2 MeshTriangleLoader<T>::extractFirstNumber(std::string::const_iterator& start,
+bool MeshTriangleLoader<T>::extractFirstNumber(T2& ret,
+	std::string::const_iterator& start,
 	std::string::const_iterator end)
 {
 	std::stringstream stream(std::string(start, end));
-	T2 ret = 0;
-	stream >> ret;
-	start += stream.tellg();
+	if(!(stream >> ret))
+		return false;
+
+	if(stream.eof())// Number was at the end of the line, no position available
+		start = end;
+	else
+		start += stream.tellg();
 
-	return ret;
+	return true;
 }
 
 NS_END_NAMESPACE
\ No newline at end of file
-- 
2.43.0


From fba8aa73c604a66fa14d96dbcde295c9053d5fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:28 +0000
Subject: [PATCH 42/47] fix: object loader aborted on objects without vertices
 or faces and leaked the element with an invalid index

---
 src/objloader/loader/MeshObjLoader.inl | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/objloader/loader/MeshObjLoader.inl b/src/objloader/loader/MeshObjLoader.inl
index e238b1f..6f83d56 100644
--- a/src/objloader/loader/MeshObjLoader.inl
+++ b/src/objloader/loader/MeshObjLoader.inl
@@ -46,8 +46,10 @@ Mesh<T,2> MeshObjLoader<T,yI,xI>::load(const std::vector<tinyobj::shape_t>& shap
 		const size_t vertexCount = shape.mesh.positions.size() / 3;
 		const size_t elementCount = shape.mesh.indices.size() / 3;
 
-		mesh.reserveVertices(vertexCount);
-		mesh.reserveElements(elementCount);
+		if(vertexCount > 0)
+			mesh.reserveVertices(vertexCount);
+		if(elementCount > 0)
+			mesh.reserveElements(elementCount);
 
 		for (size_t i = 0; i < vertexCount; ++i)
 		{
@@ -64,7 +66,10 @@ Mesh<T,2> MeshObjLoader<T,yI,xI>::load(const std::vector<tinyobj::shape_t>& shap
 			{
 				Index idx = shape.mesh.indices[3 * i + j];
 				if(idx >= vertexCount)
+				{
+					delete s;
 					throw LoadObjErrorException();
+				}
 				
 				s->Vertices[j] = mesh.vertex(idx);
 			}
-- 
2.43.0


From 95a8de67613a06b05a8af3426336574160d9f81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:05 +0000
Subject: [PATCH 43/47] fix: VTK export wrote no connectivity for meshes
 without degrees of freedom

---
 src/lib/export/VTKExporter.inl | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/export/VTKExporter.inl b/src/lib/export/VTKExporter.inl
index 1a3de4d..57e73f7 100644
--- a/src/lib/export/VTKExporter.inl
+++ b/src/lib/export/VTKExporter.inl
@@ -42,8 +42,16 @@ void VTKExporter<T,K>::write(const std::string& path,
 	stream << "<DataArray type=\"Int32\" Name=\"connectivity\" format=\"ascii\">" << std::endl;
 	for (MeshElement<T,K>* elem : mesh.elements())
 	{
-		for(auto v : elem->DOFVertices)
-			stream << v->GlobalIndex << " ";
+		if(elem->DOFVertices.empty())// Mesh not prepared, only geometry is available
+		{
+			for(auto v : elem->Vertices)
+				stream << v->GlobalIndex << " ";
+		}
+		else
+		{
+			for(auto v : elem->DOFVertices)
+				stream << v->GlobalIndex << " ";
+		}
 		stream << std::endl;
 	}
 	stream << "</DataArray>" << std::endl;
-- 
2.43.0


From 39cd113c03e5af36407cc2766e5cbc27e9af4673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:05 +0000
Subject: [PATCH 44/47] fix: VTK export read past the end of an empty list of
 point data

---
 src/lib/export/VTKExporter.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/export/VTKExporter.inl b/src/lib/export/VTKExporter.inl
index 57e73f7..a101220 100644
--- a/src/lib/export/VTKExporter.inl
+++ b/src/lib/export/VTKExporter.inl
@@ -100,7 +100,10 @@ void VTKExporter<T,K>::write(const std::string& path,
 	stream << "</Cells>" << std::endl;
 
 	// Point data
-	stream << "<PointData Scalars=\"" << pointData.begin()->first << "\">" << std::endl;
+	stream << "<PointData";
+	if(!pointData.empty())
+		stream << " Scalars=\"" << pointData.begin()->first << "\"";
+	stream << ">" << std::endl;
 	for(auto res : pointData)
 	{
 		stream << "<DataArray Name=\"" << res.first << "\" type=\"Float32\" format=\"ascii\">" << std::endl;
-- 
2.43.0


From aac7bbcfadc884377dee788b43551304c04a79af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:05 +0000
Subject: [PATCH 45/47] fix: VTK export announced more gradient components than
 written

---
 src/lib/export/VTKExporter.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/export/VTKExporter.inl b/src/lib/export/VTKExporter.inl
index a101220..3ae7351 100644
--- a/src/lib/export/VTKExporter.inl
+++ b/src/lib/export/VTKExporter.inl
@@ -165,7 +165,7 @@ void VTKExporter<T,K>::write(const std::string& path,
 	if(outputOptions & VOO_ElementGradient)
 	{
 		stream << "<DataArray Name=\"ElementGradient\" type=\"Float32\" NumberOfComponents=\"" 
-			<< (K*K) << "\" format=\"ascii\">" << std::endl;
+			<< K << "\" format=\"ascii\">" << std::endl;
 		for (MeshElement<T,K>* elem : mesh.elements())
 		{
 			const auto M = elem->Element.gradient(0);
-- 
2.43.0


From 73c7700f99c425a7b4be7c724cf115304dfeb94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:54 +0000
Subject: [PATCH 46/47] fix: scaling by a reference to an own element uses its
 original value

---
 src/lib/Vector.inl              | 9 ++++++---
 src/lib/matrix/DenseMatrix.inl  | 3 ++-
 src/lib/matrix/FixedMatrix.inl  | 3 ++-
 src/lib/matrix/SparseMatrix.inl | 3 ++-
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index c927535..28abb80 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -174,8 +174,9 @@ Vector<T,DC>& Vector<T,DC>::operator +=(const Vector<T,DC>& v)
 template<typename T, class DC>
 Vector<T,DC>& Vector<T,DC>::operator +=(const T& f)
 {
+	const T s = f;// May refer to an element of this vector
 	for (Index i = 0; i < this->size(); ++i)
-		this->mData[i] += f;
+		this->mData[i] += s;
 
 	return *this;
 }
@@ -195,8 +196,9 @@ Vector<T,DC>& Vector<T,DC>::operator -=(const Vector<T,DC>& v)
 template<typename T, class DC>
 Vector<T,DC>& Vector<T,DC>::operator -=(const T& f)
 {
+	const T s = f;// May refer to an element of this vector
 	for (Index i = 0; i < this->size(); ++i)
-		this->mData[i] -= f;
+		this->mData[i] -= s;
 
 	return *this;
 }
@@ -216,8 +218,9 @@ Vector<T,DC>& Vector<T,DC>::operator *=(const Vector<T,DC>& v)
 template<typename T, class DC>
 Vector<T,DC>& Vector<T,DC>::operator *=(const T& f)
 {
+	const T s = f;// May refer to an element of this vector
 	for (Index i = 0; i < this->size(); ++i)
-		this->mData[i] *= f;
+		this->mData[i] *= s;
 
 	return *this;
 }
diff --git a/src/lib/matrix/DenseMatrix.inl b/src/lib/matrix/DenseMatrix.inl
index 2a67ec9..94268e5 100644
--- a/src/lib/matrix/DenseMatrix.inl
+++ b/src/lib/matrix/DenseMatrix.inl
@@ -104,8 +104,9 @@ DenseMatrix<T>& DenseMatrix<T>::operator *=(const BaseMatrix<T,DC2>& m)
 template<typename T>
 DenseMatrix<T>& DenseMatrix<T>::operator *=(const T& f)
 {
+	const T s = f;// May refer to an entry of this matrix
 	for (Index i = 0; i < this->size(); ++i)
-		this->mValues.Container[i] *= f;
+		this->mValues.Container[i] *= s;
 
 	return *this;
 }
diff --git a/src/lib/matrix/FixedMatrix.inl b/src/lib/matrix/FixedMatrix.inl
index c98b05a..c68740b 100644
--- a/src/lib/matrix/FixedMatrix.inl
+++ b/src/lib/matrix/FixedMatrix.inl
@@ -76,8 +76,9 @@ FixedMatrix<T,K1,K2>& FixedMatrix<T,K1,K2>::operator *=(const FixedMatrix<T,K1,K
 template<typename T, Dimension K1, Dimension K2>
 FixedMatrix<T,K1,K2>& FixedMatrix<T,K1,K2>::operator *=(const T& f)
 {
+	const T s = f;// May refer to an entry of this matrix
 	for (Index i = 0; i < this->size(); ++i)
-		this->mValues.Container[i] *= f;
+		this->mValues.Container[i] *= s;
 
 	return *this;
 }
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 422c568..b5b0065 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -711,8 +711,9 @@ SparseMatrix<T>& SparseMatrix<T>::operator *=(const T& f)
 	}
 	else
 	{
+		const T s = f;// May refer to an entry of this matrix
 		for (auto it = begin(); it != end(); ++it)// O(D1*D2)
-			*it *= f; // O(1)
+			*it *= s; // O(1)
 	}
 
 	return *this;
-- 
2.43.0


From 27b63b7f799e53070a5665b1980614badbc9b11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:54 +0000
Subject: [PATCH 47/47] fix: element-wise sparse product keeps empty entries
 zero for any right operand

---
 src/lib/matrix/SparseMatrix.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index b5b0065..017d2e4 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -686,7 +686,8 @@ SparseMatrix<T>& SparseMatrix<T>::operator *=(const SparseMatrix<T>& v2)
 		Index tmp;
 		T& val = const_cast<T&>(internal_at(it.row(), it.column(), tmp, found));// O(D2)
 
-		val *= *it;
+		if (found)// Never touch the value shared by all empty entries
+			val *= *it;
 	}
 
 	for (auto it = begin(); it != end();)// O(D1*D2)
-- 
2.43.0

