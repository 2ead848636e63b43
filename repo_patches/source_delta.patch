From 3b76b9fb76b8ab6a661a217decbe8d509758bdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 001/143] fix: reject an invalid feature structure as feature
 value

FeatureStructure::setFSValue dereferenced the CAS pointer of the value before
checking it; setting a default-constructed feature structure crashed instead
of throwing InvalidFSObjectException.
---
 src/cas/featurestructure.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index c5f167d..e576cde 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -193,6 +193,7 @@ namespace uima {
    * checks if anFS is an appropriate value for f.
    */
   void FeatureStructure::checkAppropFeature(Feature const & f, FeatureStructure const & anFS, TyMessageId tyContext) const {
+    anFS.checkValidity(tyContext);
     if ( (&iv_cas->getHeap()->getTypeSystem()) != (&anFS.iv_cas->getHeap()->getTypeSystem()) ) {
       UIMA_EXC_THROW_NEW(InvalidFSObjectException,
                          UIMA_ERR_INVALID_FS_OBJECT,
-- 
2.43.0


From 97680ad9356dc19e0d1aa5ac9aa677340c12797b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 002/143] fix: check that a string feature is defined on the
 type before accessing it

getStringValue and setStringValue only checked the range of the feature, so a
string feature of an unrelated type read or overwrote a foreign heap cell
instead of throwing FeatureNotAppropriateException.
---
 src/cas/featurestructure.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index e576cde..0d6656d 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -435,6 +435,7 @@ namespace uima {
 
   UnicodeStringRef  FeatureStructure::getStringValue(Feature const & f) const {
     checkValidity(UIMA_MSG_ID_EXCON_GETTING_STRINGVALUE_FROM_FS);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_STRINGVALUE_FROM_FS);
     checkRangeIsString(f, UIMA_MSG_ID_EXCON_GETTING_STRINGVALUE_FROM_FS);
     lowlevel::TyFSFeature tyFeat =  internal::FSPromoter::demoteFeature( f );
     lowlevel::TyFS tyStringFS = iv_cas->getHeap()->getFSValue(iv_tyFS, tyFeat);
@@ -450,6 +451,7 @@ namespace uima {
 
   void FeatureStructure::setStringValueExternal(Feature const & f, UnicodeStringRef uls) {
     checkValidity(UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
+    checkFeature(f, UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
     checkRangeIsString(f, UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
 
     //!!! Not supporting External at this time. All strings added to StringHeap.
-- 
2.43.0


From 05e3edd6f7503947afad96efb9e8550242dbd4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 003/143] fix: do not read boolean, byte, short, long and
 double features as references

checkNonBuiltinFeature knew only integer, float and string, so getFSValue
interpreted the other primitive values as feature structure addresses.
---
 src/cas/featurestructure.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index 0d6656d..f797c8b 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -134,6 +134,11 @@ namespace uima {
     if ( rangeType == uima::internal::gs_tyIntegerType
          || rangeType == uima::internal::gs_tyFloatType
          || rangeType == uima::internal::gs_tyStringType
+         || rangeType == uima::internal::gs_tyBooleanType
+         || rangeType == uima::internal::gs_tyByteType
+         || rangeType == uima::internal::gs_tyShortType
+         || rangeType == uima::internal::gs_tyLongType
+         || rangeType == uima::internal::gs_tyDoubleType
          || rTS.getParentType(rangeType) == uima::internal::gs_tyStringType ) {
       ErrorMessage msg( UIMA_MSG_ID_EXC_INCOMPATIBLE_RANGE_TYPE);
       msg.addParam( rTS.getFeatureName( internal::FSPromoter::demoteFeature(crFeature) ) );
-- 
2.43.0


From 9446bb0e755ab8963867e6dbce24b8f80b570625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 004/143] fix: check the feature in the list accessors of
 feature structures

hasListElements and get*ListFSValue neither checked the feature structure nor
that the feature is defined on its type; the getters even created and stored a
list in a foreign heap cell.
---
 src/cas/featurestructure.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index f797c8b..d8af23c 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -540,6 +540,8 @@ namespace uima {
   /* ----------------------------------------------------------------------- */
 
   bool FeatureStructure::hasListElements(Feature const & f) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_LIST_ISEMPTY);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_LIST_ISEMPTY);
     Type tRangeType;
     f.getRangeType(tRangeType);
     lowlevel::TyFSFeature tyRangeType = internal::FSPromoter::demoteType(tRangeType);
@@ -571,18 +573,26 @@ namespace uima {
   }
 
   ListFS FeatureStructure::getListFSValue( Feature const & f ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return ListFS::getListFSValue(*this, f);
   }
 
   FloatListFS FeatureStructure::getFloatListFSValue( Feature const & f ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return FloatListFS::getListFSValue(*this, f);
   }
 
   IntListFS FeatureStructure::getIntListFSValue( Feature const & f ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return IntListFS::getListFSValue(*this, f);
   }
 
   StringListFS FeatureStructure::getStringListFSValue( Feature const & f ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return StringListFS::getListFSValue(*this, f);
   }
 
-- 
2.43.0


From 6d0277306a8f6f6894c3c4f0b86608cb760eb10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 005/143] fix: clone(Type) copies nothing when the types have
 no common feature

A most specific common supertype without features made copyFeatures copy all
features of the target type, reading beyond the source feature structure.
---
 src/cas/featurestructure.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index d8af23c..f7bae38 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -262,7 +262,10 @@ namespace uima {
     lowlevel::TyFSType mcst = ts.getMostSpecificCommonSupertype( uima::internal::FSPromoter::demoteType(getType()),
                               uima::internal::FSPromoter::demoteType(t) );
     lowlevel::TyFeatureOffset featNum = ts.getFeatureNumber( mcst );
-    iv_cas->getHeap()->copyFeatures(newFS.iv_tyFS, iv_tyFS, featNum);
+    // 0 would mean "all features" to copyFeatures
+    if (featNum > 0) {
+      iv_cas->getHeap()->copyFeatures(newFS.iv_tyFS, iv_tyFS, featNum);
+    }
     return newFS;
   }
 
-- 
2.43.0


From 437660785b89c9ba85282ec6a7983a7ba3e419ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 006/143] fix: check the range, not only the length, of bulk
 array copies

copyToArray read beyond the end of the array for every start offset > 0 that
did not fit, and both directions rejected copying zero elements.
---
 src/cas/arrayfs.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/cas/arrayfs.cpp b/src/cas/arrayfs.cpp
index fd5a85d..9d4099a 100644
--- a/src/cas/arrayfs.cpp
+++ b/src/cas/arrayfs.cpp
@@ -91,6 +91,22 @@ namespace uima {
     }
   }
 
+  /* check that the elements [uiStart, uiStart + uiCount) exist */
+  void checkArrayRange(lowlevel::TyFS tyFS, uima::lowlevel::FSHeap * pFSSystem, size_t uiStart, size_t uiCount, TyMessageId tyContext) {
+    size_t uiSize = pFSSystem->getArraySize(tyFS);
+    if (uiCount > uiSize || uiStart > uiSize - uiCount) {
+      ErrorMessage err(UIMA_MSG_ID_EXC_ARRAY_OUT_OF_BOUNDS);
+      err.addParam(uiStart + uiCount);
+      err.addParam(uiSize);
+      UIMA_EXC_THROW_NEW(FSArrayOutOfBoundsException,
+                         UIMA_ERR_FS_ARRAY_OUT_OF_BOUNDS,
+                         err,
+                         ErrorMessage(tyContext),
+                         ErrorInfo::recoverable
+                        );
+    }
+  }
+
   /* ----------------------------------------------------------------------- */
   /*       BasicArrayFS                                                      */
   /* ----------------------------------------------------------------------- */
@@ -170,7 +186,7 @@ namespace uima {
     T* destArray,
     size_t uiDestOffset) const {
       checkValidity(UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
-      checkArraySize(iv_tyFS, iv_cas->getHeap(), uiEnd - uiStart - 1 , UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
+      checkArrayRange(iv_tyFS, iv_cas->getHeap(), uiStart, uiEnd - uiStart, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
       uima::lowlevel::TyFSType typecode = iv_cas->getHeap()->getType(iv_tyFS);
 
 	  size_t srcOffset = uiStart;
@@ -205,12 +221,10 @@ namespace uima {
     size_t uiEnd,
     size_t uiOffset) {
       checkValidity(UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
-      checkArraySize(iv_tyFS, iv_cas->getHeap(), uiEnd - uiStart - 1, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
-      
 	  size_t srcOffset = uiStart;
 	  size_t numelements = uiEnd-uiStart;
 	  size_t destOffset = uiOffset;
-	  checkArraySize(iv_tyFS, iv_cas->getHeap(), destOffset+numelements-1, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
+	  checkArrayRange(iv_tyFS, iv_cas->getHeap(), destOffset, numelements, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
       uima::lowlevel::TyFSType typecode = iv_cas->getHeap()->getType(iv_tyFS);
 
 	  if (typecode== uima::internal::gs_tyIntArrayType || 
-- 
2.43.0


From 6b4ddc9f0e30c634a9669d0dd9a3666cf531cd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 007/143] fix: remove list elements iteratively

removeElement recursed once per list element and exhausted the stack on lists
of some ten thousand elements.
---
 src/cas/listfs.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cas/listfs.cpp b/src/cas/listfs.cpp
index b8b31fe..2746d7f 100644
--- a/src/cas/listfs.cpp
+++ b/src/cas/listfs.cpp
@@ -504,15 +504,16 @@ namespace uima {
                         uima::lowlevel::FSHeap & heap,
                         T const & element) {
     assert(! aList.isEmpty() );
-    BasicListFS<T, LIST_TYPE, ELIST_TYPE, NELIST_TYPE, HEAD_FEATURE, TAIL_FEATURE> tail = aList.getTail();
-    if (! tail.isEmpty() ) {
+    BasicListFS<T, LIST_TYPE, ELIST_TYPE, NELIST_TYPE, HEAD_FEATURE, TAIL_FEATURE> current = aList;
+    BasicListFS<T, LIST_TYPE, ELIST_TYPE, NELIST_TYPE, HEAD_FEATURE, TAIL_FEATURE> tail = current.getTail();
+    while (! tail.isEmpty() ) {
       if (tail.getHead() == element) {
-        aList.setTail(tail.getTail());
+        current.setTail(tail.getTail());
         terminateList(tail, heap);
         return tail;
-      } else {
-        return deleteElementFromList(tail, heap, element);
       }
+      current = tail;
+      tail = current.getTail();
     }
     return BasicListFS<T, LIST_TYPE, ELIST_TYPE, NELIST_TYPE, HEAD_FEATURE, TAIL_FEATURE>();
   }
-- 
2.43.0


From 77bf5402dc0787a2772bb64fa84f574c0b9494fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 008/143] fix: unset long and double features read as 0

getFSAsLong and getFSAsDouble returned '\n' (10) for a value that was never set.
---
 src/cas/uima/lowlevel_fsheap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cas/uima/lowlevel_fsheap.hpp b/src/cas/uima/lowlevel_fsheap.hpp
index a8eb226..5d25ebc 100644
--- a/src/cas/uima/lowlevel_fsheap.hpp
+++ b/src/cas/uima/lowlevel_fsheap.hpp
@@ -490,7 +490,7 @@ namespace uima {
 
       inline INT64 getFSAsLong(TyFS tyFS) const {
         if (tyFS == 0) {
-          return '\n';
+          return 0;
         }
         assert( iv_clTemporary64BitHeap.debugIsValidHeapCell(tyFS) );
         return (INT64) iv_clTemporary64BitHeap.getHeapValue(tyFS);
@@ -498,7 +498,7 @@ namespace uima {
 
       inline double getFSAsDouble(TyFS tyFS) const {
         if (tyFS == 0) {
-          return '\n';
+          return 0;
         }
         assert( iv_clTemporary64BitHeap.debugIsValidHeapCell(tyFS) );
         INT64 int64Val = iv_clTemporary64BitHeap.getHeapValue(tyFS);
-- 
2.43.0


From 3c2b6342b9e5a5ddd47614a9e100147fbc5f63fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 009/143] fix: do not store primitive values into features of
 type TOP

The primitive types are subtypes of uima.cas.TOP, so the primitive accessors
accepted features that hold a reference and stored the number as an address.
---
 src/cas/featurestructure.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index f7bae38..6eab5e7 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -154,6 +154,16 @@ namespace uima {
     }
   }
 
+  static bool isPrimitiveType(lowlevel::TyFSType aType) {
+    return aType == uima::internal::gs_tyIntegerType
+           || aType == uima::internal::gs_tyFloatType
+           || aType == uima::internal::gs_tyBooleanType
+           || aType == uima::internal::gs_tyByteType
+           || aType == uima::internal::gs_tyShortType
+           || aType == uima::internal::gs_tyLongType
+           || aType == uima::internal::gs_tyDoubleType;
+  }
+
   /**
    * checks if the range type of the feature subsumes the aType.
    * In other words, checks if an FS of aType is an appropriate value for f.
@@ -181,7 +191,9 @@ namespace uima {
                            ErrorInfo::recoverable
                           );
       }
-    } else if ( !ts.subsumes(ts.getRangeType(internal::FSPromoter::demoteFeature(f)), aType ) ) {
+    } else if ( !ts.subsumes(ts.getRangeType(internal::FSPromoter::demoteFeature(f)), aType )
+                // a reference of type TOP cannot hold a primitive value
+                || ( isPrimitiveType(aType) && ts.getRangeType(internal::FSPromoter::demoteFeature(f)) != aType ) ) {
       ErrorMessage msg( UIMA_MSG_ID_EXC_INCOMPATIBLE_RANGE_TYPE);
       msg.addParam( ts.getFeatureName(internal::FSPromoter::demoteFeature(f)) );
       msg.addParam( ts.getTypeName(aType) );
-- 
2.43.0


From a8939652b25699c4b1eb9470df163f2e6199bdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 010/143] fix: allow an FSArray as value of features of a more
 general type

A feature of range uima.cas.TOP or uima.cas.ArrayBase (e.g. the head of an
FSList) accepts every array except FSArray, which the special case for typed
FS arrays rejected.
---
 src/cas/featurestructure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index 6eab5e7..e68ed69 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -180,7 +180,7 @@ namespace uima {
       Type featType;
       f.getRangeType(featType);
       lowlevel::TyFSType featTypeCode = internal::FSPromoter::demoteType(featType);
-      if (aType != featTypeCode && !ts.subsumes(aType,featTypeCode) ) {
+      if (!ts.subsumes(featTypeCode, aType) && !ts.subsumes(aType,featTypeCode) ) {
         ErrorMessage msg( UIMA_MSG_ID_EXC_INCOMPATIBLE_RANGE_TYPE);
         msg.addParam( ts.getFeatureName(internal::FSPromoter::demoteFeature(f)) );
         msg.addParam( ts.getTypeName(aType) );
-- 
2.43.0


From db606abbe05b6b4208e3914153bfd74c1a1239eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 011/143] fix: index keys of string subtypes compare as
 strings, unsupported key ranges are rejected

---
 src/cas/lowlevel_indexcomparator.cpp |  3 ++-
 src/framework/casdefinition.cpp      | 19 ++++++++++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/cas/lowlevel_indexcomparator.cpp b/src/cas/lowlevel_indexcomparator.cpp
index bea89cc..308f817 100644
--- a/src/cas/lowlevel_indexcomparator.cpp
+++ b/src/cas/lowlevel_indexcomparator.cpp
@@ -96,7 +96,7 @@ namespace uima {
           iv_appropTypes.push_back( BUILTIN_TYPE_INTEGER );
         } else if (tyAppropType == crTypeSystem.getTypeByName( CAS::TYPE_NAME_FLOAT)) {
           iv_appropTypes.push_back( BUILTIN_TYPE_FLOAT );
-        } else if (tyAppropType == crTypeSystem.getTypeByName( CAS::TYPE_NAME_STRING)) {
+        } else if (crTypeSystem.subsumes( crTypeSystem.getTypeByName( CAS::TYPE_NAME_STRING), tyAppropType)) {
           iv_appropTypes.push_back( BUILTIN_TYPE_STRING );
         } else if (tyAppropType == crTypeSystem.getTypeByName( CAS::TYPE_NAME_BOOLEAN)) {
           iv_appropTypes.push_back( BUILTIN_TYPE_BOOLEAN );
@@ -111,6 +111,7 @@ namespace uima {
         }
         else {
           assertWithMsg(false, "Type not supported for key features!");
+          iv_appropTypes.push_back( BUILTIN_TYPE_INVALID );
         }
       }
       iv_comparators.push_back(enComp);
diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index ad6ea2c..34d8023 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -486,6 +486,21 @@ namespace uima {
     }
 
 
+    // can features of this range be keys of an index?
+    static bool isValidKeyRange(uima::lowlevel::TypeSystem const & crTypeSystem, uima::lowlevel::TyFSType range) {
+      static char const * const names[] = {
+        CAS::TYPE_NAME_INTEGER, CAS::TYPE_NAME_FLOAT, CAS::TYPE_NAME_STRING,
+        CAS::TYPE_NAME_BOOLEAN, CAS::TYPE_NAME_BYTE, CAS::TYPE_NAME_SHORT,
+        CAS::TYPE_NAME_LONG, CAS::TYPE_NAME_DOUBLE
+      };
+      for (size_t i = 0; i < NUMBEROF(names); ++i) {
+        if (crTypeSystem.subsumes(crTypeSystem.getTypeByName(names[i]), range)) {
+          return true;
+        }
+      }
+      return false;
+    }
+
     void CASDefinition::createIndexesFromSpecifier(AnalysisEngineMetaData::TyVecpFSIndexDescriptions const & crIndexDescVec) {
       uima::lowlevel::TypeSystem const & crTypeSystem = *iv_typeSystem;
 
@@ -543,7 +558,9 @@ namespace uima {
             icu::UnicodeString const & crFeatureName = cpIndexKeyDesc->getFeatureName();
 
             feat = crTypeSystem.getFeatureByBaseName( type, crFeatureName);
-            if (! crTypeSystem.isValidFeature(feat) ) {
+            if (! crTypeSystem.isValidFeature(feat)
+                // only primitive values and strings can be compared
+                || ! isValidKeyRange(crTypeSystem, crTypeSystem.getRangeType(feat)) ) {
               UIMA_EXC_THROW_NEW(UnknownFeatureException,
                                  UIMA_ERR_UNKNOWN_FEATURE,
                                  ErrorMessage(UIMA_MSG_ID_EXC_UNKNOWN_FEATURE_NAME, crFeatureName),
-- 
2.43.0


From 037de24edc231ff8d98c3ceefccde10e0734d881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 012/143] fix: remove exactly the given feature structure from
 sorted and set indexes

---
 src/cas/lowlevel_internal_indexes.cpp      | 7 +++++--
 src/cas/uima/lowlevel_internal_indexes.hpp | 6 +++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/cas/lowlevel_internal_indexes.cpp b/src/cas/lowlevel_internal_indexes.cpp
index 38d5d14..2ade129 100644
--- a/src/cas/lowlevel_internal_indexes.cpp
+++ b/src/cas/lowlevel_internal_indexes.cpp
@@ -650,8 +650,11 @@ namespace uima {
 
       void OrderedSingleIndex::remove(TyFS fs) {
         IndexComparatorLess comp(iv_cpComparator, iv_crFSHeap);
-        TyStructures::iterator it = lower_bound( iv_tyStructures.begin(), iv_tyStructures.end(), fs, comp);
-        if ( it != iv_tyStructures.end() ) {
+        // several equal elements may exist, remove exactly fs
+        pair<TyStructures::iterator, TyStructures::iterator> range =
+          equal_range( iv_tyStructures.begin(), iv_tyStructures.end(), fs, comp);
+        TyStructures::iterator it = std::find( range.first, range.second, fs);
+        if ( it != range.second ) {
           iv_tyStructures.erase(it);
         }
       }
diff --git a/src/cas/uima/lowlevel_internal_indexes.hpp b/src/cas/uima/lowlevel_internal_indexes.hpp
index 9abe1c2..d38e8a5 100644
--- a/src/cas/uima/lowlevel_internal_indexes.hpp
+++ b/src/cas/uima/lowlevel_internal_indexes.hpp
@@ -206,7 +206,11 @@ namespace uima {
         }
         void remove(TyFS fs) {
           assert( EXISTS(iv_pStructures) );
-          (void) iv_pStructures->erase(fs);
+          // the element contained may be another one that is equal to fs
+          TyStructures::iterator it = iv_pStructures->find(fs);
+          if (it != iv_pStructures->end() && *it == fs) {
+            iv_pStructures->erase(it);
+          }
         }
 
         void reset();
-- 
2.43.0


From b5fd1d484e7485a5e23590a7402a1d74eb5bcceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 013/143] fix: composite and undefined indexes notice the
 removal of a feature structure

---
 src/cas/uima/lowlevel_indexrepository.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/cas/uima/lowlevel_indexrepository.hpp b/src/cas/uima/lowlevel_indexrepository.hpp
index c4b4ea6..6dd5344 100644
--- a/src/cas/uima/lowlevel_indexrepository.hpp
+++ b/src/cas/uima/lowlevel_indexrepository.hpp
@@ -39,6 +39,7 @@
 #include "uima/pragmas.hpp"
 
 
+#include <algorithm>
 #include <map>
 #include <list>
 #include "uima/lowlevel_fsheap.hpp"
@@ -270,6 +271,17 @@ namespace uima {
       assert( type < iv_indexes.size() );
       std::vector<internal::SingleIndex*>& typeIndexes = iv_indexes[type];
 
+      // composite indexes over this type have to be updated
+      iv_cacheDirtyFlags[type].clear();
+
+      if (typeIndexes.empty()) {
+        std::vector<TyFS>::iterator itUndef = std::find(iv_undefinedindex.begin(), iv_undefinedindex.end(), fs);
+        if (itUndef != iv_undefinedindex.end()) {
+          iv_undefinedindex.erase(itUndef);
+        }
+        return;
+      }
+
       std::vector<internal::SingleIndex*>::iterator it;
       for (it = typeIndexes.begin(); it != typeIndexes.end(); ++it) {
         assert( (*it)->getType() == type );
@@ -281,12 +293,19 @@ namespace uima {
     inline void IndexRepository::add(TyFS fs, IndexDefinition::TyIndexID const & crID) {
       assert( iv_bIsInitialized );
       internal::SingleIndex* ix = getSingleIndexForFS(fs, crID);
+      TyFSType type = iv_rFSHeap.getType(fs);
+      iv_cacheDirtyFlags[type].clear();
+      if (!iv_isUsed[type]) {
+        iv_isUsed[type] = true;
+        iv_usedIndexes.push_back(type);
+      }
       ix->add(fs);
     }
 
     inline void IndexRepository::remove(TyFS fs, IndexDefinition::TyIndexID const & crID) {
       assert( iv_bIsInitialized );
       internal::SingleIndex* ix = getSingleIndexForFS(fs, crID);
+      iv_cacheDirtyFlags[iv_rFSHeap.getType(fs)].clear();
       ix->remove(fs);
     }
 
-- 
2.43.0


From 23ec8d61e3fb03f05cc42a733cb235b6566fe255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 014/143] fix: getIndexedFSs returns each feature structure
 once

---
 src/cas/lowlevel_indexrepository.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_indexrepository.cpp b/src/cas/lowlevel_indexrepository.cpp
index d8a90e1..600bc8f 100644
--- a/src/cas/lowlevel_indexrepository.cpp
+++ b/src/cas/lowlevel_indexrepository.cpp
@@ -197,7 +197,7 @@ namespace uima {
       }
 	  // eliminate duplicates
       sort(fillit.begin(), fillit.end());
-      vector<TyFS>::iterator end = unique(fillit.begin(), fillit.end());
+      fillit.erase(unique(fillit.begin(), fillit.end()), fillit.end());
     }
 
     void IndexRepository::reset() {
-- 
2.43.0


From 41a0b5332e33afe9ca9e8f58ba7e08b5ddfd6a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 015/143] fix: resetting index definitions forgets feature
 structures without an index

---
 src/cas/lowlevel_indexrepository.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cas/lowlevel_indexrepository.cpp b/src/cas/lowlevel_indexrepository.cpp
index 600bc8f..62240e2 100644
--- a/src/cas/lowlevel_indexrepository.cpp
+++ b/src/cas/lowlevel_indexrepository.cpp
@@ -169,6 +169,7 @@ namespace uima {
       iv_idNonMaximalTypeIndexes.clear();
       iv_indexes.clear();
       iv_cacheDirtyFlags.clear();
+      iv_undefinedindex.clear();
     }
 
 
-- 
2.43.0


From 10707bcb8236b8b8a7f2383f904c34ad7f87229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 016/143] fix: moving a filtered iterator to a feature
 structure does not stop at a filtered one

---
 src/cas/lowlevel_index.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_index.cpp b/src/cas/lowlevel_index.cpp
index d071c5c..3282e98 100644
--- a/src/cas/lowlevel_index.cpp
+++ b/src/cas/lowlevel_index.cpp
@@ -172,7 +172,11 @@ namespace uima {
 
       bool moveTo(TyFS fs) {
         assert( EXISTS(iv_pIterator) );
-        return iv_pIterator->moveTo(fs);
+        bool bResult = iv_pIterator->moveTo(fs);
+        if (bResult) {
+          moveToNextUnfiltered();
+        }
+        return bResult && isValid();
       }
 
     };
-- 
2.43.0


From af430c59b3a9198c420e16b1bd529c1ceb9cedfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 017/143] fix: filtered iterators release their filter wrapper

---
 src/cas/fsindex.cpp             |  2 +-
 src/cas/lowlevel_index.cpp      | 11 +++++++++--
 src/cas/uima/lowlevel_index.hpp |  6 ++++++
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/cas/fsindex.cpp b/src/cas/fsindex.cpp
index 804b1cb..a698f21 100644
--- a/src/cas/fsindex.cpp
+++ b/src/cas/fsindex.cpp
@@ -177,7 +177,7 @@ namespace uima {
 
   FSIterator FSIndex::filteredIterator(uima::FSFilter const * cpFilter) const {
     checkValidity();
-    internal::FSFilterWrapper* pFilterWrapper = new internal::FSFilterWrapper( cpFilter, & iv_indexRepository->getCas() );
+    std::shared_ptr<lowlevel::FSFilter const> pFilterWrapper( new internal::FSFilterWrapper( cpFilter, & iv_indexRepository->getCas() ) );
     lowlevel::IndexIterator* it = iv_pIndex->createFilteredIterator(pFilterWrapper);
     return FSIterator(it, & iv_indexRepository->getCas() );
   }
diff --git a/src/cas/lowlevel_index.cpp b/src/cas/lowlevel_index.cpp
index 3282e98..9dab3a6 100644
--- a/src/cas/lowlevel_index.cpp
+++ b/src/cas/lowlevel_index.cpp
@@ -92,7 +92,7 @@ namespace uima {
      */
     class FilterIndexIterator : public IndexIterator {
     private:
-      FSFilter const * iv_cpFilter;
+      std::shared_ptr<FSFilter const> iv_cpFilter;
       IndexIterator* iv_pIterator;
 
       void moveToNextUnfiltered() {
@@ -118,7 +118,7 @@ namespace uima {
       }
 
     public:
-      FilterIndexIterator(FSFilter const * cpFilter, IndexIterator* pIterator)
+      FilterIndexIterator(std::shared_ptr<FSFilter const> const & cpFilter, IndexIterator* pIterator)
           : iv_cpFilter(cpFilter),
           iv_pIterator(pIterator) {}
 
@@ -182,7 +182,14 @@ namespace uima {
     };
 
 
+    // the filter stays property of the caller
+    static void keepFilter(FSFilter const *) {}
+
     IndexIterator* IndexABase::createFilteredIterator(FSFilter const * cpFilter) const {
+      return createFilteredIterator(std::shared_ptr<FSFilter const>(cpFilter, keepFilter));
+    }
+
+    IndexIterator* IndexABase::createFilteredIterator(std::shared_ptr<FSFilter const> const & cpFilter) const {
       IndexIterator* pit = createIterator();
       assert( EXISTS(pit) );
       IndexIterator* result = new FilterIndexIterator(cpFilter, pit);
diff --git a/src/cas/uima/lowlevel_index.hpp b/src/cas/uima/lowlevel_index.hpp
index 28210d3..e2786ee 100644
--- a/src/cas/uima/lowlevel_index.hpp
+++ b/src/cas/uima/lowlevel_index.hpp
@@ -39,6 +39,7 @@
 #include "uima/pragmas.hpp" // must be first file to be included to get pragmas
 #include <vector>
 #include <algorithm>
+#include <memory>
 #include <set>
 #include "uima/types.h"
 #include "uima/lowlevel_typedefs.hpp"
@@ -127,6 +128,11 @@ namespace uima {
        */
       IndexIterator* createFilteredIterator(FSFilter const * cpFilter) const;
 
+      /**
+       * same, but the iterator and its copies share the ownership of the filter.
+       */
+      IndexIterator* createFilteredIterator(std::shared_ptr<FSFilter const> const & cpFilter) const;
+
       /**
        * Advanced use only:
        * Returns a const pointer to an internal vector of feature structures.
-- 
2.43.0


From 72b5707715cd1ebdc0a9051560aea37487b3a47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 018/143] fix: copying a default constructed iterator does not
 dereference null

---
 src/cas/fsiterator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cas/fsiterator.cpp b/src/cas/fsiterator.cpp
index deb54e5..b8ca987 100644
--- a/src/cas/fsiterator.cpp
+++ b/src/cas/fsiterator.cpp
@@ -76,7 +76,9 @@ namespace uima {
     }
     iv_pIterator = NULL;
     iv_cas = crOther.iv_cas;
-    iv_pIterator = crOther.iv_pIterator->clone();
+    if (crOther.iv_pIterator != NULL) {
+      iv_pIterator = crOther.iv_pIterator->clone();
+    }
     return *this;
   }
 
-- 
2.43.0


From 2c7542194ba35aafb8662d18ae19a17db8d9a262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 019/143] fix: peekNext and peekPrevious do not move the
 iterator

---
 src/cas/fsiterator.cpp | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/cas/fsiterator.cpp b/src/cas/fsiterator.cpp
index b8ca987..b66ec10 100644
--- a/src/cas/fsiterator.cpp
+++ b/src/cas/fsiterator.cpp
@@ -136,27 +136,16 @@ namespace uima {
 
 
   FeatureStructure FSIterator::peekNext() const {
-    FeatureStructure result;
-    iv_pIterator->moveToNext();
-    if (iv_pIterator->isValid()) {
-      result = uima::internal::FSPromoter::promoteFS( iv_pIterator->get(), *iv_cas );
-      iv_pIterator->moveToPrevious();
-    } else {
-      iv_pIterator->moveToLast();
-    }
-    return result;
+    // move a copy: not all iterators find back to where they were
+    FSIterator next(*this);
+    next.iv_pIterator->moveToNext();
+    return next.isValid() ? next.get() : FeatureStructure();
   }
 
   FeatureStructure FSIterator::peekPrevious() const {
-    FeatureStructure result;
-    iv_pIterator->moveToPrevious();
-    if (iv_pIterator->isValid()) {
-      result = uima::internal::FSPromoter::promoteFS( iv_pIterator->get(), *iv_cas );
-      iv_pIterator->moveToNext();
-    } else {
-      iv_pIterator->moveToFirst();
-    }
-    return result;
+    FSIterator previous(*this);
+    previous.iv_pIterator->moveToPrevious();
+    return previous.isValid() ? previous.get() : FeatureStructure();
   }
 
 
-- 
2.43.0


From f494f1757816fdbcbf8cb0fc282faa4e376a9260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 020/143] fix: the heap iterator steps over 8, 16 and 64 bit
 arrays, its clone keeps the position

---
 src/cas/uima/lowlevel_defaultfsiterator.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/cas/uima/lowlevel_defaultfsiterator.hpp b/src/cas/uima/lowlevel_defaultfsiterator.hpp
index ba890a7..049c2c0 100644
--- a/src/cas/uima/lowlevel_defaultfsiterator.hpp
+++ b/src/cas/uima/lowlevel_defaultfsiterator.hpp
@@ -93,10 +93,10 @@ namespace uima {
           :  //iv_cpComparator(cpComparator),
           iv_heap(heap),
           crTypeSystem(heap.getTypeSystem()),
-          tyTempHeap(heap.iv_clTemporaryHeap) {
+          tyTempHeap(heap.iv_clTemporaryHeap),
+          iv_cpComparator(NULL) {
         pEnd = tyTempHeap.getTopOfHeap();
-        iv_it = 1;
-        tyType = tyTempHeap.getHeapValue(iv_it);
+        moveToFirst();
       }
 
       void moveToFirst() {
@@ -144,8 +144,17 @@ namespace uima {
         if ( !isValid() )
           return;
         if (crTypeSystem.isArrayType(tyType)) {
-          // get array size
-          iv_it += 2 + tyTempHeap.getHeapValue(iv_it+1);
+          // the elements of these arrays are on heaps of their own
+          if (tyType == uima::internal::gs_tyBooleanArrayType
+              || tyType == uima::internal::gs_tyByteArrayType
+              || tyType == uima::internal::gs_tyShortArrayType
+              || tyType == uima::internal::gs_tyLongArrayType
+              || tyType == uima::internal::gs_tyDoubleArrayType) {
+            iv_it += 3;
+          } else {
+            // get array size
+            iv_it += 2 + tyTempHeap.getHeapValue(iv_it+1);
+          }
         } else {
           //look up number of features
           uima::lowlevel::TyFeatureOffset tySize = crTypeSystem.getFeatureNumber(tyType);
@@ -160,7 +169,7 @@ namespace uima {
       }
 
       IndexIterator* clone() const {
-        return new DefaultFSIterator(iv_heap);
+        return new DefaultFSIterator(*this);
       }
 
       bool moveTo(TyFS fs) {
-- 
2.43.0


From 2eafd5d07d88e5ee36eecabd36bb3e33744668bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 021/143] fix: moving an iterator over a bag index to a feature
 structure does not skip it

---
 src/cas/lowlevel_internal_indexes.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/cas/lowlevel_internal_indexes.cpp b/src/cas/lowlevel_internal_indexes.cpp
index 2ade129..5ae5b42 100644
--- a/src/cas/lowlevel_internal_indexes.cpp
+++ b/src/cas/lowlevel_internal_indexes.cpp
@@ -165,9 +165,6 @@ namespace uima {
 
           if (iv_cpComparator == NULL) {
             cit = find(iv_crStructures.begin(), iv_crStructures.end(), fs);
-            if (cit != iv_crStructures.end()) {
-              ++cit;
-            }
           } else {
             // first try to find the same fs
             cit = find(iv_crStructures.begin(), iv_crStructures.end(), fs);
-- 
2.43.0


From c1bd057482e40b1ff9a6b4ecf7f33f924e2397c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 022/143] fix: an iterator over an empty set of types is empty
 for leaf types too

---
 src/cas/lowlevel_internal_indexes.cpp      | 9 +++++++++
 src/cas/uima/lowlevel_internal_indexes.hpp | 8 +-------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/cas/lowlevel_internal_indexes.cpp b/src/cas/lowlevel_internal_indexes.cpp
index 5ae5b42..8714145 100644
--- a/src/cas/lowlevel_internal_indexes.cpp
+++ b/src/cas/lowlevel_internal_indexes.cpp
@@ -339,6 +339,15 @@ namespace uima {
 
       };
 
+      IndexIterator* SingleIndex::createTypeSetIterator(set<uima::lowlevel::TyFSType> const & crTypes) const {
+        assert( crTypes.size() <= 1 );
+        if (crTypes.find(getType()) == crTypes.end()) {
+          // nothing is of one of the requested types
+          return new TypeSetIterator( createIterator(), crTypes );
+        }
+        return createIterator();
+      }
+
       template <class T>
       IndexIterator* CachedCompositeIndex<T>::createTypeSetIterator(set<uima::lowlevel::TyFSType> const & crTypes) const {
         if (iv_crIndexRepository.isDirtyForIndex( this )) {
diff --git a/src/cas/uima/lowlevel_internal_indexes.hpp b/src/cas/uima/lowlevel_internal_indexes.hpp
index d38e8a5..7425aa4 100644
--- a/src/cas/uima/lowlevel_internal_indexes.hpp
+++ b/src/cas/uima/lowlevel_internal_indexes.hpp
@@ -91,13 +91,7 @@ namespace uima {
          */
         virtual bool contains(TyFS) const;
 
-        virtual IndexIterator* createTypeSetIterator(std::set<uima::lowlevel::TyFSType> const & crType) const {
-          assert( crType.size() <= 1 );
-          if (crType.size() == 1) {
-            assert( *(crType.begin()) == getType() );
-          }
-          return createIterator();
-        }
+        virtual IndexIterator* createTypeSetIterator(std::set<uima::lowlevel::TyFSType> const & crType) const;
       };
 
 
-- 
2.43.0


From 44ec6ba7c47ec913aaccc40be56f0c6a8d75b21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 023/143] fix: order NaN keys after all other numbers

---
 src/cas/lowlevel_indexcomparator.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cas/lowlevel_indexcomparator.cpp b/src/cas/lowlevel_indexcomparator.cpp
index 308f817..357e788 100644
--- a/src/cas/lowlevel_indexcomparator.cpp
+++ b/src/cas/lowlevel_indexcomparator.cpp
@@ -214,8 +214,9 @@ namespace uima {
           case BUILTIN_TYPE_FLOAT: {
             float f1 = FSHeap::getFSAsFloat(val1);
             float f2 = FSHeap::getFSAsFloat(val2);
-            isLess = (f1 < f2);
-            isGreater = (f1 > f2);
+            // NaN is greater than all numbers, otherwise there was no total order
+            isLess = (f1 < f2) || (f1 == f1 && f2 != f2);
+            isGreater = (f1 > f2) || (f1 != f1 && f2 == f2);
             break;
           }
           case BUILTIN_TYPE_STRING: {
@@ -258,8 +259,8 @@ namespace uima {
           case BUILTIN_TYPE_DOUBLE: {
             double f1 = heap.getFSAsDouble(val1);
             double f2 = heap.getFSAsDouble(val2);
-            isLess = (f1 < f2);
-            isGreater = (f1 > f2);
+            isLess = (f1 < f2) || (f1 == f1 && f2 != f2);
+            isGreater = (f1 > f2) || (f1 != f1 && f2 == f2);
             break;
           }
 
-- 
2.43.0


From 9fe2a3d4084d40e2ee3d52af3db9750046dd0649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 024/143] fix: subiterators do not move backward out of their
 span

---
 src/cas/cas.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 521cc8f..fc0407d 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1421,13 +1421,22 @@ namespace uima {
       size_t iv_uiBegPos;
       size_t iv_uiEndPos;
       TyFS   iv_tyMoveToFirstFS;
+      TyFS   iv_tyFirstFS;      // first element of this iterator
+
+      void invalidate() {
+        iv_pIterator->moveToLast();
+        if (iv_pIterator->isValid()) {
+          iv_pIterator->moveToNext();
+        }
+      }
     public:
       SubIterator(uima::lowlevel::FSHeap & heap, size_t uiBeginPos, size_t uiEndPos, IndexIterator* pIterator):
           iv_heap(&heap),
           iv_pIterator(pIterator),
           iv_uiBegPos(uiBeginPos),
           iv_uiEndPos(uiEndPos),
-          iv_tyMoveToFirstFS(0) {
+          iv_tyMoveToFirstFS(0),
+          iv_tyFirstFS(0) {
         assert( EXISTS(iv_heap) );
         TyFSType    tyTAN  = iv_heap->getTypeSystem().getTypeByName(CAS::TYPE_NAME_ANNOTATION);
         // create the longest possible AN starting at uiBeginPos (must be first of all starting there)
@@ -1441,7 +1450,8 @@ namespace uima {
           iv_pIterator(pIterator),
           iv_uiBegPos(iv_heap->getIntValue(tyAn, uima::internal::gs_tyBeginPosFeature)),
           iv_uiEndPos(iv_heap->getIntValue(tyAn, uima::internal::gs_tyEndPosFeature)),
-          iv_tyMoveToFirstFS(tyAn) {}
+          iv_tyMoveToFirstFS(tyAn),
+          iv_tyFirstFS(0) {}
 
       virtual ~SubIterator() {
         assert( EXISTS(iv_pIterator) );
@@ -1459,6 +1469,7 @@ namespace uima {
             iv_pIterator->moveToNext();
           }
         }
+        iv_tyFirstFS = isValid() ? iv_pIterator->get() : 0;
       }
 
       void moveToNext() {
@@ -1475,6 +1486,11 @@ namespace uima {
 
       void moveToPrevious() {
         assert( isValid() );
+        if (iv_pIterator->get() == iv_tyFirstFS) {
+          // do not leave the span in front of the first element
+          invalidate();
+          return;
+        }
         iv_pIterator->moveToPrevious();
         if (isValid()) {
           if (iv_pIterator->get() == iv_tyMoveToFirstFS) {
@@ -1544,7 +1560,8 @@ namespace uima {
         assert( EXISTS(iv_heap) );
         assert( EXISTS(iv_pIterator) );
         // don't call 4-arg constructor here! Pass on the FS to be moved to
-        IndexIterator * pResult = new SubIterator(*iv_heap, iv_tyMoveToFirstFS, iv_pIterator->clone());
+        SubIterator * pResult = new SubIterator(*iv_heap, iv_tyMoveToFirstFS, iv_pIterator->clone());
+        pResult->iv_tyFirstFS = iv_tyFirstFS;
         assert( EXISTS(pResult) );
 
         assert( isValid() == pResult->isValid() );
@@ -1606,7 +1623,9 @@ namespace uima {
       IndexIterator* clone() const {
         assert( EXISTS(iv_heap) );
         assert( EXISTS(iv_pIterator) );
-        return new UnAmbiguousSubIterator(*iv_heap, iv_tyMoveToFirstFS, iv_pIterator->clone());
+        UnAmbiguousSubIterator * pResult = new UnAmbiguousSubIterator(*iv_heap, iv_tyMoveToFirstFS, iv_pIterator->clone());
+        pResult->iv_tyFirstFS = iv_tyFirstFS;
+        return pResult;
       }
 
     }
-- 
2.43.0


From d4f6107cb1e5d3ce7e3e97be4bfc02a00075ad3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 025/143] fix: unambiguous subiterators move backward
 unambiguously

---
 src/cas/cas.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index fc0407d..836a4ea 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1620,6 +1620,21 @@ namespace uima {
 
       }
 
+      void moveToPrevious() {
+        assert( isValid() );
+        // the predecessor is the one moveToNext() gets here from
+        TyFS current = iv_pIterator->get();
+        TyFS previous = uima::lowlevel::FSHeap::INVALID_FS;
+        for (moveToFirst(); isValid() && iv_pIterator->get() != current; moveToNext()) {
+          previous = iv_pIterator->get();
+        }
+        if (previous == uima::lowlevel::FSHeap::INVALID_FS) {
+          invalidate();
+        } else {
+          moveTo(previous);
+        }
+      }
+
       IndexIterator* clone() const {
         assert( EXISTS(iv_heap) );
         assert( EXISTS(iv_pIterator) );
-- 
2.43.0


From 52ef9b9188fd519e1b55ab9fed1d1618eddbb7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 026/143] fix: an empty type priority list is not walked out of
 bounds

---
 src/framework/casdefinition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index 34d8023..2a71cf0 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -450,7 +450,7 @@ namespace uima {
         vector<icu::UnicodeString> const & crTypeChain = cpTypePriority->getTypeOrder();
         size_t i;
         // walk along the chain
-        for (i=0; i<crTypeChain.size()-1; ++i) {
+        for (i=0; i+1<crTypeChain.size(); ++i) {
           uima::lowlevel::TyFSType t1 = rTypeSystem.getTypeByName(crTypeChain[i]);
           if (t1 == uima::lowlevel::TypeSystem::INVALID_TYPE) {
             UIMA_EXC_THROW_NEW(UnknownTypeException,
-- 
2.43.0


From e8707e3ac7884623dde0c65ff8a34319bd037c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 027/143] fix: storing a string that lies on the string heap
 survives growth of that heap

---
 src/cas/uima/lowlevel_fsheap.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cas/uima/lowlevel_fsheap.hpp b/src/cas/uima/lowlevel_fsheap.hpp
index 5d25ebc..365309a 100644
--- a/src/cas/uima/lowlevel_fsheap.hpp
+++ b/src/cas/uima/lowlevel_fsheap.hpp
@@ -364,9 +364,17 @@ namespace uima {
       int addString(UnicodeStringRef const & uls) {
         size_t l = uls.length();
         TyStringHeap & rtyStringHeap = getStringHeap();
+        // the string may be one of this heap, which moves when it grows
+        UChar const * cpSource = uls.getBuffer();
+        UChar const * cpOldStart = rtyStringHeap.getHeapStart();
+        bool bOnHeap = (cpSource >= cpOldStart) && (cpSource < cpOldStart + rtyStringHeap.getTopOfHeap());
+        size_t uiOffset = bOnHeap ? (cpSource - cpOldStart) : 0;
         int p = rtyStringHeap.increaseHeap(l + 1);
+        if (bOnHeap) {
+          cpSource = rtyStringHeap.getHeapStart() + uiOffset;
+        }
         assert( (int)(2*l) == uls.getSizeInBytes() );
-        memcpy(rtyStringHeap.getHeapStart()+p, uls.getBuffer(), uls.getSizeInBytes() );
+        memcpy(rtyStringHeap.getHeapStart()+p, cpSource, l * sizeof(UChar) );
         return p;
       }
 
-- 
2.43.0


From 144d904579d5a1bc3960f5c9c906cfdca56f93bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 028/143] fix: strings keep characters after an embedded U+0000

---
 src/cas/cas.cpp                             |  6 +++---
 src/cas/featurestructure.cpp                |  2 +-
 src/cas/lowlevel_fsheap.cpp                 |  9 +++++----
 src/cas/uima/internal_fsvalue_accessors.hpp |  4 ++--
 src/cas/uima/lowlevel_fsheap.hpp            | 21 +++++++++++++--------
 src/cas/xcasdeserializer_handler.cpp        |  2 +-
 6 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 836a4ea..0106d96 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -435,19 +435,19 @@ namespace uima {
   int CAS::addString(UChar const * cpBuffer, size_t uiLength) {
     UnicodeStringRef uls( cpBuffer, uiLength );
     int shoff = iv_heap->addString(uls);
-    return iv_heap->getStringAsFS(shoff);
+    return iv_heap->getStringAsFS(shoff, uls.length());
   }
 
 
   int CAS::addString(icu::UnicodeString const & crString) {
     UnicodeStringRef uls( crString.getBuffer(), crString.length() );
     int shoff = iv_heap->addString(uls);
-    return iv_heap->getStringAsFS(shoff);
+    return iv_heap->getStringAsFS(shoff, uls.length());
   }
 
   int CAS::addString(const UnicodeStringRef & uls) {
     int shoff = iv_heap->addString(uls);
-    return iv_heap->getStringAsFS(shoff);
+    return iv_heap->getStringAsFS(shoff, uls.length());
   }
 
   ArrayFS CAS::createArrayFS(size_t uiLength) {
diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index e68ed69..0b10cef 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -507,7 +507,7 @@ namespace uima {
 
 
 
-    iv_cas->getHeap()->setStringValue( iv_tyFS, tyFeat, ulsRef );
+    iv_cas->getHeap()->setStringValue( iv_tyFS, tyFeat, ulsRef, uls.length() );
   }
 
   /* ----------------------------------------------------------------------- */
diff --git a/src/cas/lowlevel_fsheap.cpp b/src/cas/lowlevel_fsheap.cpp
index 212c24a..54ec43e 100644
--- a/src/cas/lowlevel_fsheap.cpp
+++ b/src/cas/lowlevel_fsheap.cpp
@@ -113,7 +113,7 @@ namespace uima {
     }
 
 
-    void FSHeap::setStringValue(TyFS tyFs, TyFSFeature tyFeature, int strRef) {
+    void FSHeap::setStringValue(TyFS tyFs, TyFSFeature tyFeature, int strRef, size_t uiLength) {
       assert( iv_rclTypeSystem.isValidFeature(tyFeature) );
       assert( iv_rclTypeSystem.subsumes(uima::internal::gs_tyStringType, iv_rclTypeSystem.getRangeType(tyFeature)));
 
@@ -139,10 +139,10 @@ namespace uima {
       TyFS tyCurrentString = getFeatureInternal( tyFs, tyFeature );
       if (tyCurrentString == 0) {
         // add entry to StringRefHeap and set values there
-        tyCurrentString = getStringAsFS(strRef);
+        tyCurrentString = getStringAsFS(strRef, uiLength);
       } else {
         // reuse entry in StringRefHeap
-        setStringRef(tyCurrentString, strRef);
+        setStringRef(tyCurrentString, strRef, uiLength);
       }
 
       setFeatureInternal(tyFs, tyFeature, tyCurrentString);
@@ -163,7 +163,8 @@ namespace uima {
           // if string value set, create duplicate reference to string in refHeap
           if (strRef != 0) {
             int ref = iv_clTemporaryStringRefHeap.getHeapValue(1 + 2*(strRef-1));
-            iv_clTemporaryHeap.setHeapValue(tyTarget+i, getStringAsFS(ref));
+            size_t uiLength = iv_clTemporaryStringRefHeap.getHeapValue(1 + 2*(strRef-1) + 1);
+            iv_clTemporaryHeap.setHeapValue(tyTarget+i, getStringAsFS(ref, uiLength));
           }
         } else {
           iv_clTemporaryHeap.setHeapValue(tyTarget+i, iv_clTemporaryHeap.getHeapValue(tySource+i));
diff --git a/src/cas/uima/internal_fsvalue_accessors.hpp b/src/cas/uima/internal_fsvalue_accessors.hpp
index b2bf1e6..41fe71a 100644
--- a/src/cas/uima/internal_fsvalue_accessors.hpp
+++ b/src/cas/uima/internal_fsvalue_accessors.hpp
@@ -93,7 +93,7 @@ namespace uima {
     }
     inline void setFSValueTempl(uima::CAS * cas, lowlevel::TyFS tyFS, lowlevel::TyFSFeature tyFeat, UnicodeStringRef const & val) {
       int ulsHeap = cas->getHeap()->addString(val);
-      cas->getHeap()->setStringValue(tyFS, tyFeat, ulsHeap );
+      cas->getHeap()->setStringValue(tyFS, tyFeat, ulsHeap, val.length() );
       assert( cas->getHeap()->getStringValue(tyFS, tyFeat) == val );
     }
 
@@ -120,7 +120,7 @@ namespace uima {
         uima::lowlevel::FSHeap & heap,
         lowlevel::TyHeapCell offset) {
       int ulsHeap = heap.addString(s);
-      lowlevel::TyFS tyStringFS = heap.getStringAsFS( ulsHeap );
+      lowlevel::TyFS tyStringFS = heap.getStringAsFS( ulsHeap, s.length() );
       return (lowlevel::TyHeapCell)tyStringFS;
       //  return (lowlevel::TyHeapCell) ulsHeap;
     }
diff --git a/src/cas/uima/lowlevel_fsheap.hpp b/src/cas/uima/lowlevel_fsheap.hpp
index 365309a..da53d11 100644
--- a/src/cas/uima/lowlevel_fsheap.hpp
+++ b/src/cas/uima/lowlevel_fsheap.hpp
@@ -148,7 +148,7 @@ namespace uima {
        * at pointerIntoStringRefHeap to point to s.
        */
       void setStringRef(TyFS offsetIntoStringRefHeap,
-                        TyFS offsetIntoStringHeap);
+                        TyFS offsetIntoStringHeap, size_t uiLength);
 
       TyFSHeap& getHeap() {
         return iv_clTemporaryHeap;
@@ -574,7 +574,10 @@ namespace uima {
        * This method is non-const since an entry on the string ref heap
        * is created.
        */
-      TyFS getStringAsFS(int crStringRef);
+      TyFS getStringAsFS(int crStringRef, size_t uiLength);
+      TyFS getStringAsFS(int crStringRef) { // string without embedded 0
+        return getStringAsFS(crStringRef, u_strlen(iv_clTemporaryStringHeap.getHeapStart()+crStringRef));
+      }
 
       /*@}*/
 
@@ -584,7 +587,10 @@ namespace uima {
        */
       void setIntValue(TyFS, TyFSFeature, int);
       void setFloatValue(TyFS, TyFSFeature, float);
-      void setStringValue(TyFS, TyFSFeature, int strRef);
+      void setStringValue(TyFS, TyFSFeature, int strRef, size_t uiLength);
+      void setStringValue(TyFS tyFs, TyFSFeature tyFeature, int strRef) { // string without embedded 0
+        setStringValue(tyFs, tyFeature, strRef, u_strlen(iv_clTemporaryStringHeap.getHeapStart()+strRef));
+      }
 
       void setByteValue(TyFS, TyFSFeature, char );
       void setShortValue(TyFS, TyFSFeature, short );
@@ -738,7 +744,7 @@ namespace uima {
       iv_clTemporaryHeap.setHeapValue(tyFs + tyOffset, tyValue);
     }
 
-    inline void FSHeap::setStringRef(TyFS strHeapRef, TyFS strRef) {
+    inline void FSHeap::setStringRef(TyFS strHeapRef, TyFS strRef, size_t uiLength) {
       // convert from logical string offset to absolute offset into refHeap
       strHeapRef = 1 + 2*(strHeapRef-1);
 
@@ -746,8 +752,7 @@ namespace uima {
       iv_clTemporaryStringRefHeap.setHeapValue(strHeapRef, strRef);
 
       // set length
-      iv_clTemporaryStringRefHeap.setHeapValue(strHeapRef+1,
-          u_strlen(iv_clTemporaryStringHeap.getHeapStart()+strRef) );
+      iv_clTemporaryStringRefHeap.setHeapValue(strHeapRef+1, (TyHeapCell) uiLength );
     }
 
     inline UnicodeStringRef FSHeap::getFSAsString(TyFS tyFS) const {
@@ -762,12 +767,12 @@ namespace uima {
                                (size_t) iv_clTemporaryStringRefHeap.getHeapValue(tyFS+1));
     }
 
-    inline TyFS FSHeap::getStringAsFS(int crStringRef) {
+    inline TyFS FSHeap::getStringAsFS(int crStringRef, size_t uiLength) {
       // increase string ref heap by 2
       TyFS stringRef = iv_clTemporaryStringRefHeap.increaseHeap(2);
       // convert to local string offset
       stringRef = 1 + ((stringRef-1)/2);
-      setStringRef(stringRef, crStringRef);
+      setStringRef(stringRef, crStringRef, uiLength);
       return stringRef;
     }
 
diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 53012d7..505ddeb 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -627,7 +627,7 @@ namespace uima {
         //add the string
         int stringoffset = iv_cas->getHeap()->addString(buffer);
         //set the array value in fs heap
-        lowlevel::TyFS  stringref =  iv_cas->getHeap()->getStringAsFS(stringoffset);
+        lowlevel::TyFS  stringref =  iv_cas->getHeap()->getStringAsFS(stringoffset, buffer.length());
         lowlevel::TyHeapCell * fsarray = iv_cas->getHeap()->getCArrayFromFS(currentAddr);
         fsarray[arrayPos] = stringref;
         break;
-- 
2.43.0


From a6af555dd2b54024565d5ce77e267e0137cb4c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 029/143] fix: XMI strings are written and read as UTF-8
 whatever the default converter is

---
 src/cas/xmideserializer_handler.cpp    |  6 ++--
 src/cas/xmiwriter.cpp                  | 39 ++++++++------------------
 src/cas/xmlwriter.cpp                  |  9 ++++++
 src/framework/uima/caswriter_abase.hpp |  2 ++
 4 files changed, 25 insertions(+), 31 deletions(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 34fae1d..a1367ea 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -696,7 +696,7 @@ namespace uima {
     case internal::gs_tyStringArrayType: {
         //add the striug
 				StringArrayFS strFS(fs);
-				icu::UnicodeString strval(buffer.c_str());
+				icu::UnicodeString strval(icu::UnicodeString::fromUTF8(buffer));
 				strFS.set( (size_t) arrayPos,strval);
 				break;
     }
@@ -1046,7 +1046,7 @@ void XmiDeserializerHandler::handleFeature(lowlevel::TyFS addr,
 		   } else {
 			   Type type = internal::FSPromoter::promoteType(rangeTypeCode,
 				   iv_cas->getTypeSystem().getLowlevelTypeSystem());
-				 icu::UnicodeString val(featVals.at(0).c_str());
+				 icu::UnicodeString val(icu::UnicodeString::fromUTF8(featVals.at(0)));
 			   handleFeature(type,		   
 				   addr, featCode,val, true);
 		   }
@@ -1156,7 +1156,7 @@ void XmiDeserializerHandler::handleFeature(lowlevel::TyFS addr,
   int XmiDeserializerHandler::createStringList(vector<string>& stringList)	{   
     StringListFS listFS =   iv_cas->createStringListFS();
     for (size_t i = 0; i < stringList.size(); i++ ) {
-      icu::UnicodeString value(stringList.at(i).c_str()); //use xmiId to look up addr
+      icu::UnicodeString value(icu::UnicodeString::fromUTF8(stringList.at(i))); //use xmiId to look up addr
 	    listFS.addLast(value);
     }
 	  return internal::FSPromoter::demoteFS(listFS);
diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index c462c8e..09ebdfc 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -353,10 +353,8 @@ namespace uima {
       if (!fs.isUntouchedFSValue(f) ) {
       UnicodeStringRef ref = fs.getStringValue(f);
       if (ref.getBuffer() != NULL) {
-        icu::UnicodeString us;
-        normalize( ref, us );
         os << " " << f.getName() << "=\"";
-        os << us << "\"";
+        os << normalizeToUTF8( ref ) << "\"";
       }
       }
     } else if (t == iv_integerType) {
@@ -548,11 +546,8 @@ namespace uima {
       case internal::gs_tyStringArrayType: {
         StringArrayFS arrayfs(fs);
         size_t n = arrayfs.size();
-	icu::UnicodeString ustr;       
         for (size_t i=0; i < n;i++) {
-          ustr.setTo("");
-          normalize( arrayfs.get(i), ustr );
-          str << "<" << tag << ">" << ustr << "</" << tag << ">";
+          str << "<" << tag << ">" << normalizeToUTF8( arrayfs.get(i) ) << "</" << tag << ">";
          
         }         
         break;
@@ -743,10 +738,8 @@ namespace uima {
       //attributes
       for (size_t a=0; a < oed->attributes.size(); a++) {
         XmlAttribute * attr = oed->attributes.at(a);
-        icu::UnicodeString us;
-        icu::UnicodeString av(attr->value.c_str());
-        normalize( av, us );
-        os << " " << attr->name << "=\"" << us << "\"";
+        icu::UnicodeString av(icu::UnicodeString::fromUTF8(attr->value));
+        os << " " << attr->name << "=\"" << normalizeToUTF8(av) << "\"";
       }
       //child elements
       map<string,vector<string>*>::iterator ite ;
@@ -754,11 +747,9 @@ namespace uima {
         ite != oed->childElements.end(); ite++) {
           vector<string> * values = ite->second;
           for (size_t v=0; v < values->size();v++) {
-            icu::UnicodeString us;
-            icu::UnicodeString av(values->at(v).c_str());
-            normalize( av, us );
+            icu::UnicodeString av(icu::UnicodeString::fromUTF8(values->at(v)));
             strcontent << " <" << ite->first 
-              << ">" << us
+              << ">" << normalizeToUTF8(av)
               << "</" << ite->first << ">";
           }
         }
@@ -1153,12 +1144,8 @@ void XmiWriter::write(ostream & os) {
                                     }
     case internal::gs_tyNEStringListType:  {
       StringListFS curNode(fs);
-      icu::UnicodeString ustr;
       while (!curNode.isEmpty()) { 
-        ///string head = curNode.getHead().asUTF8();
-        ustr.setTo("");
-        normalize(curNode.getHead(), ustr);
-        str << "<" << tag << ">" << ustr << "</" << tag << ">";
+        str << "<" << tag << ">" << normalizeToUTF8(curNode.getHead()) << "</" << tag << ">";
         curNode = curNode.getTail();
         int addr = internal::FSPromoter::demoteFS(curNode);
         if (visited[addr] == addr) {
@@ -1205,10 +1192,8 @@ void XmiWriter::serializeOutOfTypeSystemElements(ostream & os)  {
     // Add other attributes
     for (size_t a=0; a < oed->attributes.size();a++) {
       XmlAttribute * attr = oed->attributes.at(a);
-      icu::UnicodeString us;
-      icu::UnicodeString av(attr->value.c_str());
-      normalize( av, us );
-      os << " " << attr->name << "=\"" << us << "\"";
+      icu::UnicodeString av(icu::UnicodeString::fromUTF8(attr->value));
+      os << " " << attr->name << "=\"" << normalizeToUTF8(av) << "\"";
     }
     if (oed->childElements.size() > 0) {
       os << ">";
@@ -1217,11 +1202,9 @@ void XmiWriter::serializeOutOfTypeSystemElements(ostream & os)  {
       for (ite = oed->childElements.begin(); ite != oed->childElements.end();ite++ ) {
         vector<string> * values = ite->second;
         for (size_t v=0; v < values->size(); v++) {
-	        icu::UnicodeString us;
-			icu::UnicodeString av(values->at(v).c_str());
-			normalize( av, us );
+          icu::UnicodeString av(icu::UnicodeString::fromUTF8(values->at(v)));
           os << " <" << ite->first << ">";
-          os << us;
+          os << normalizeToUTF8(av);
           os << "</" << ite->first << ">";
         }
       }
diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index cbd305b..e9aaf3e 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -123,6 +123,15 @@ namespace uima {
   }
 
 
+  std::string XMLWriterABase::normalizeToUTF8(UnicodeStringRef const & in) {
+    icu::UnicodeString us;
+    normalize(in, us);
+    std::string result;
+    us.toUTF8String(result);
+    return result;
+  }
+
+
   /////////////////////////////////////////////////////////////////////////////
   // DumpWriter
 
diff --git a/src/framework/uima/caswriter_abase.hpp b/src/framework/uima/caswriter_abase.hpp
index 961b285..d15eab2 100644
--- a/src/framework/uima/caswriter_abase.hpp
+++ b/src/framework/uima/caswriter_abase.hpp
@@ -81,6 +81,8 @@ namespace uima {
   class UIMA_LINK_IMPORTSPEC XMLWriterABase : public CASWriterABase {
   public:
     static void normalize(UnicodeStringRef const & in, icu::UnicodeString& out);
+    /** The normalized form of in, encoded as UTF-8, whatever the default converter is. */
+    static std::string normalizeToUTF8(UnicodeStringRef const & in);
   public:
     XMLWriterABase(CAS const & crCAS, bool bAddDocBuffer);
     virtual ~XMLWriterABase();
-- 
2.43.0


From ca4b3e15ab8b2e9c1c6f691826d4c1f5daac10e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 030/143] fix: floats and doubles in XMI keep their value

---
 src/cas/xmideserializer_handler.cpp    | 12 ++----------
 src/cas/xmiwriter.cpp                  | 12 +++++-------
 src/cas/xmlwriter.cpp                  | 27 ++++++++++++++++++++++++++
 src/framework/uima/caswriter_abase.hpp |  3 +++
 4 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index a1367ea..43ba97a 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -741,11 +741,7 @@ namespace uima {
       }
     case internal::gs_tyDoubleArrayType: {
         DoubleArrayFS doubleFS(fs);
-        stringstream s;
-        s << buffer;
-        long double doubleval;
-        s >> doubleval;
-        doubleFS.set((size_t) arrayPos, doubleval);
+        doubleFS.set((size_t) arrayPos, strtod(buffer.c_str(), NULL));
         break;
       }
     default: {    //array of FSs
@@ -888,11 +884,7 @@ namespace uima {
       case internal::gs_tyDoubleType: {
         if (featVal.length() > 0) {
           string strval = UnicodeStringRef(featVal).asUTF8();
-          long double doubleval;
-          stringstream s;
-          s << strval.c_str();
-          s >> doubleval;
-          fs.setDoubleValue(feat, doubleval );
+          fs.setDoubleValue(feat, strtod(strval.c_str(), NULL) );
         }
         break;
       }	  
diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 09ebdfc..45aae0a 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -362,7 +362,7 @@ namespace uima {
       os << fs.getIntValue(f) << "\"";
     } else if (t == iv_floatType) {
       os << " " << f.getName() << "=\"";
-      os << fs.getFloatValue(f) << "\"";
+      os << realToString(fs.getFloatValue(f)) << "\"";
     } else if (t == iv_byteType) {
       os << " " << f.getName() << "=\"";
       int val = fs.getByteValue(f);
@@ -381,9 +381,7 @@ namespace uima {
       os << fs.getLongValue(f) << "\"";
     } else if (t == iv_doubleType) {
       os << " " << f.getName() << "=\"";
-      stringstream s;
-      s << fs.getDoubleValue(f);
-      os << s.str() << "\"";
+      os << realToString(fs.getDoubleValue(f)) << "\"";
     } else {
      
       FeatureStructure referencedFS = fs.getFSValue(f);
@@ -443,7 +441,7 @@ namespace uima {
         FloatArrayFS arrayfs(fs);
         size_t n = arrayfs.size();
         for (size_t i=0; i < n;i++) {
-          str << arrayfs.get(i);
+          str << realToString(arrayfs.get(i));
           if (i+1 < n) {         
             str << " ";
           }
@@ -504,7 +502,7 @@ namespace uima {
         DoubleArrayFS arrayfs(fs);
         size_t n = arrayfs.size();
         for (size_t i=0; i < n;i++) {
-          str << arrayfs.get(i);
+          str << realToString(arrayfs.get(i));
           if (i+1 < n) {         
             str << " ";
           }
@@ -1079,7 +1077,7 @@ void XmiWriter::write(ostream & os) {
     case internal::gs_tyNEFloatListType: {
       FloatListFS curNode(fs);
       while (!curNode.isEmpty()) { 
-        str << curNode.getHead();
+        str << realToString(curNode.getHead());
         curNode = curNode.getTail();
         int addr = internal::FSPromoter::demoteFS(curNode);
         if (visited[addr] == addr) {
diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index e9aaf3e..98e5169 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -132,6 +132,33 @@ namespace uima {
   }
 
 
+  namespace {
+    std::string formatReal(double value, int significantDigits) {
+      if (value != value) {
+        return "NaN";
+      }
+      if (value - value != 0) {
+        return value > 0 ? "Infinity" : "-Infinity";
+      }
+      std::stringstream s;
+      s.imbue(std::locale::classic());
+      s.precision(significantDigits);
+      s << value;
+      return s.str();
+    }
+  }
+
+  std::string XMLWriterABase::realToString(float value) {
+    // enough digits to identify any IEEE single
+    return formatReal(value, 9);
+  }
+
+  std::string XMLWriterABase::realToString(double value) {
+    // enough digits to identify any IEEE double
+    return formatReal(value, 17);
+  }
+
+
   /////////////////////////////////////////////////////////////////////////////
   // DumpWriter
 
diff --git a/src/framework/uima/caswriter_abase.hpp b/src/framework/uima/caswriter_abase.hpp
index d15eab2..16f6856 100644
--- a/src/framework/uima/caswriter_abase.hpp
+++ b/src/framework/uima/caswriter_abase.hpp
@@ -83,6 +83,9 @@ namespace uima {
     static void normalize(UnicodeStringRef const & in, icu::UnicodeString& out);
     /** The normalized form of in, encoded as UTF-8, whatever the default converter is. */
     static std::string normalizeToUTF8(UnicodeStringRef const & in);
+    /** Decimal text that reads back as the same value; NaN, Infinity and -Infinity as in Java. */
+    static std::string realToString(float value);
+    static std::string realToString(double value);
   public:
     XMLWriterABase(CAS const & crCAS, bool bAddDocBuffer);
     virtual ~XMLWriterABase();
-- 
2.43.0


From d525f5ac1e6e2d603fe1925843e43ec6705fd09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 031/143] fix: XMI namespace prefixes are distinct and
 well-formed

---
 src/cas/xmiwriter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 45aae0a..4c04805 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -164,6 +164,7 @@ namespace uima {
   */
  void XmiWriter::initTypeAndNamespaceMappings() {
    nsUriToPrefixMap[XMI_NS_URI] = XMI_NS_PREFIX;
+   nsPrefixesUsed.insert(XMI_NS_PREFIX);
 
    //Add any namespace prefix mappings used by out of type system data.
    //Need to do this before the in-typesystem namespaces so that the prefix
@@ -256,7 +257,7 @@ namespace uima {
      while (prefixIte != nsPrefixesUsed.end()) {
        num++;
        stringstream basePrefix;
-       basePrefix << prefix << num << endl;
+       basePrefix << prefix << num;
        prefixIte = nsPrefixesUsed.find(basePrefix.str());
        if (prefixIte == nsPrefixesUsed.end() ) {
          prefix = basePrefix.str();
-- 
2.43.0


From 70a4f094f8ebeb0d9e6335d736299a91a9d5531d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 032/143] fix: empty arrays survive an XMI round trip

---
 src/cas/xmideserializer_handler.cpp |  4 ++--
 src/cas/xmiwriter.cpp               | 19 +++++++++----------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 43ba97a..6c7f2d1 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -466,8 +466,8 @@ namespace uima {
 			} else if (iv_cas->getTypeSystem().isArrayType(internal::FSPromoter::demoteType(type)) ) {
 				
         icu::UnicodeString attrName; 
-				int xmiId=0;
-				icu::UnicodeString elements;
+				currentArrayId=0;
+				currentArrayElements.remove();
 				for (size_t i = 0; i < attrs.getLength(); i++) {
 						attrName =  attrs.getQName(i);
 						if (attrName.compare(XMI_ID_ATTR_NAME) == 0) {
diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 4c04805..c0da90e 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -579,13 +579,10 @@ namespace uima {
   }
 
   void XmiWriter::writeStringArray(ostream & os, StringArrayFS const & array, char const * tag, int xmiid) {
-    if (array.size() > 0) {
-      //XCAS os << " size=\"" << array.size() << "\">" << endl;
       os << " <" << tag;
       os << " " << ID_ATTR_NAME << "=\"" << xmiid << "\">";
-        os << arrayToString(array, "elements").c_str();
-        os << "</" << tag << ">" << endl;
-    } 
+      os << arrayToString(array, "elements").c_str();
+      os << "</" << tag << ">" << endl;
   }
 
   void XmiWriter::writeFSFlat(ostream & os,
@@ -602,9 +599,7 @@ namespace uima {
    
     // if array
     if ( iv_arrayType.subsumes(t) ) {
-      const CAS* ccasp = &iv_cas;
-      CAS* casp = const_cast<CAS*> (ccasp);
-        if (casp->getHeap()->getArraySize(internal::FSPromoter::demoteFS(fs)) >0) {
+        {
             if ( t == iv_intArrayType ) {
                 writeArray( os, IntArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
             } else if ( t == iv_floatArrayType ) {
@@ -662,8 +657,12 @@ namespace uima {
             writeFeatureValue(os, fs, f);
           } else {
             StringArrayFS arrayFS = fs.getStringArrayFSValue(f);
-            if (arrayFS.isValid() && arrayFS.size() > 0) {
-              strcontent << arrayToString(arrayFS, f.getName().asUTF8().c_str());
+            if (arrayFS.isValid()) {
+              if (arrayFS.size() > 0) {
+                strcontent << arrayToString(arrayFS, f.getName().asUTF8().c_str());
+              } else {
+                os << " " << f.getName() << "=\"\"";
+              }
             }
           }
           break;                             
-- 
2.43.0


From 19359ceeee13a0b8e9c708a609647bee1bd63234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 033/143] fix: writing a cyclic list as XMI terminates

---
 src/cas/xmiwriter.cpp | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index c0da90e..7e55f20 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -1057,9 +1057,6 @@ void XmiWriter::write(ostream & os) {
     case internal::gs_tyNEIntListType: {
       IntListFS curNode(fs);
       while (!curNode.isEmpty()) { 
-        int head = curNode.getHead();
-        str << head;
-        curNode = curNode.getTail();
         int addr = internal::FSPromoter::demoteFS(curNode);
         if (visited[addr] == addr) {
           cerr << "Found Cycle truncating " << endl;
@@ -1067,9 +1064,11 @@ void XmiWriter::write(ostream & os) {
           break;
         }
         visited[addr] = addr;
-        if ( !curNode.isEmpty() ) {
+        if (visited.size() > 1) {
           str << " " ;
         }
+        str << curNode.getHead();
+        curNode = curNode.getTail();
       }
       //cout << "intList contents " << str.str() << endl;
       break;
@@ -1077,8 +1076,6 @@ void XmiWriter::write(ostream & os) {
     case internal::gs_tyNEFloatListType: {
       FloatListFS curNode(fs);
       while (!curNode.isEmpty()) { 
-        str << realToString(curNode.getHead());
-        curNode = curNode.getTail();
         int addr = internal::FSPromoter::demoteFS(curNode);
         if (visited[addr] == addr) {
           cerr << "Found Cycle truncating " << endl;
@@ -1086,9 +1083,11 @@ void XmiWriter::write(ostream & os) {
           break;
         }
         visited[addr] = addr;
-        if ( !curNode.isEmpty() ) {
+        if (visited.size() > 1) {
           str << " " ;
         }
+        str << realToString(curNode.getHead());
+        curNode = curNode.getTail();
       }
       break;
                                          }
@@ -1104,6 +1103,16 @@ void XmiWriter::write(ostream & os) {
       //cout << "listToString() NonEmpty FSList"  << endl;
       ListFS curNode(fs);
       while (!curNode.isEmpty()) { 
+        int addr = internal::FSPromoter::demoteFS(curNode);
+        if (visited[addr] == addr) {
+          cerr << "Found Cycle truncating " << endl;
+          ResourceManager::getInstance().getLogger().logWarning("Found cycle in NEListFS. Truncating.");
+          break;
+        }
+        visited[addr] = addr;
+        if (visited.size() > 1) {
+          str << " " ;
+        }
         int head = internal::FSPromoter::demoteFS(curNode.getHead());
         if (head == 0) {
           //null value in list.  Represent with "0".
@@ -1122,20 +1131,10 @@ void XmiWriter::write(ostream & os) {
             str << head;
           }
         } else {
-          int addr = internal::FSPromoter::demoteFS(curNode);
-          if (visited[addr] == addr) {
-            cerr << "Found Cycle truncating " << endl;
-            ResourceManager::getInstance().getLogger().logWarning("Found cycle in NEListFS. Truncating.");
-            break;
-          }
-          visited[addr] = addr;
           str << getXmiId(head);
         }
 
         curNode = curNode.getTail();
-        if ( !curNode.isEmpty() ) {
-          str << " " ;
-        }
       }
       //cout << "FSListType  content " << str.str() << endl;
       break;
@@ -1143,8 +1142,6 @@ void XmiWriter::write(ostream & os) {
     case internal::gs_tyNEStringListType:  {
       StringListFS curNode(fs);
       while (!curNode.isEmpty()) { 
-        str << "<" << tag << ">" << normalizeToUTF8(curNode.getHead()) << "</" << tag << ">";
-        curNode = curNode.getTail();
         int addr = internal::FSPromoter::demoteFS(curNode);
         if (visited[addr] == addr) {
           cerr << "Found Cycle truncating " << endl;
@@ -1152,9 +1149,11 @@ void XmiWriter::write(ostream & os) {
           break;
         }
         visited[addr] = addr;
-        if ( !curNode.isEmpty() ) {
+        if (visited.size() > 1) {
           str << " " ;
         }
+        str << "<" << tag << ">" << normalizeToUTF8(curNode.getHead()) << "</" << tag << ">";
+        curNode = curNode.getTail();
       }
       break;
                                            }
-- 
2.43.0


From 865f85b34247bd6d0341ae281f6df10f9db097c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 034/143] fix: empty int, float and string lists can be written
 as XMI

---
 src/cas/xmiwriter.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 7e55f20..dbe4af3 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -713,8 +713,10 @@ namespace uima {
             } else {
               if (fs.getFSValue(f).isValid()) {
                 string str = listToString(fs.getFSValue(f), f.getName().asUTF8().c_str());          
-                if (listFS.isValid() && str.length() > 0) {
+                if (str.length() > 0) {
                   strcontent << str;
+                } else {
+                  os << " " << f.getName() << "=\"\"";
                 }
               }
             }
@@ -1091,8 +1093,14 @@ void XmiWriter::write(ostream & os) {
       }
       break;
                                          }
+    case internal::gs_tyEIntListType:
+    case internal::gs_tyEFloatListType:
+    case internal::gs_tyEStringListType:
+    case internal::gs_tyIntListType:
+    case internal::gs_tyFloatListType:
+    case internal::gs_tyStringListType:
     case internal::gs_tyEListType: {
-      //cout << "listToString() Empty FSList SKIP"  << endl;
+      //cout << "listToString() Empty list SKIP"  << endl;
       break;
                                    }
     case internal::gs_tyFSListType: {
-- 
2.43.0


From 0034ea34bb90b24c66bebe71f183db76a7d3ad22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 035/143] fix: null elements keep their place in XMI arrays and
 lists

---
 src/cas/xmiwriter.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index dbe4af3..a64c159 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -521,21 +521,17 @@ namespace uima {
         size_t ootsIndex = 0;
         for (size_t j=0; j < size; j++) {
           int xmiId = getXmiId(uima::internal::FSPromoter::demoteFS(arrayfs.get(j)));//convert to xmiid; 0 if not set
-          if (xmiId == 0) {  //if 0 check if its an Oots FS 
+          if (xmiId == 0 && ootsList != NULL) {  //if 0 check if its an Oots FS 
             // However, this null array element might have been a reference to an 
             //out-of-typesystem FS, so check the ootsArrayElementsList
-            if (ootsList != NULL) {
-              while (ootsIndex < ootsList->size()) {
-                XmiArrayElement * arel = ootsList->at(ootsIndex++);
-                if (arel->index == j) {
-                  str << arel->xmiId;
-                  break;
-                }                
-              }
+            while (ootsIndex < ootsList->size() && (size_t) ootsList->at(ootsIndex)->index < j) {
+              ootsIndex++;
+            }
+            if (ootsIndex < ootsList->size() && (size_t) ootsList->at(ootsIndex)->index == j) {
+              xmiId = ootsList->at(ootsIndex)->xmiId;
             }
-          } else {
-            str << xmiId;
           }
+          str << xmiId;
           if (j+1 < size) {         
             str << " ";
           }
@@ -1127,9 +1123,10 @@ void XmiWriter::write(ostream & os) {
           // this may be null because the element was originally a reference to an 
           // out-of-typesystem FS, so chck the XmiSerializationSharedData
           if (sharedData != NULL) {
-            int addr = internal::FSPromoter::demoteFS(curNode);
             OotsElementData * oed = sharedData->getOutOfTypeSystemFeatures(addr);
-            if (oed != NULL) {
+            if (oed == NULL) {
+              str << head;
+            } else {
               assert(oed->attributes.size() == 1); //only the head feature can possibly be here
               XmlAttribute *  attr = oed->attributes.at(0);
               assert(attr->name.compare(CAS::FEATURE_BASE_NAME_HEAD)==0);
-- 
2.43.0


From 3b012f245633766e3a38cd3dfb79fdfdb010a684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 036/143] fix: the tail feature of list nodes allows multiple
 references, so that first-class lists can be read from XMI

---
 src/cas/lowlevel_typesystem.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cas/lowlevel_typesystem.cpp b/src/cas/lowlevel_typesystem.cpp
index cb92f04..ea53e93 100644
--- a/src/cas/lowlevel_typesystem.cpp
+++ b/src/cas/lowlevel_typesystem.cpp
@@ -96,13 +96,13 @@ namespace uima {
     TypeSystem::StFeatureInfo gs_arBuiltinFeatures[] = {
           {
             CAS::FEATURE_BASE_NAME_HEAD, CAS::TYPE_NAME_NON_EMPTY_FS_LIST, CAS::TYPE_NAME_TOP, false, "head"},
-          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_FS_LIST, CAS::TYPE_NAME_FS_LIST, false, "tail"},
+          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_FS_LIST, CAS::TYPE_NAME_FS_LIST, true, "tail"},
           { CAS::FEATURE_BASE_NAME_HEAD, CAS::TYPE_NAME_NON_EMPTY_FLOAT_LIST, CAS::TYPE_NAME_FLOAT, false, "head of float list"},
-          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_FLOAT_LIST, CAS::TYPE_NAME_FLOAT_LIST, false, "tail of float list"},
+          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_FLOAT_LIST, CAS::TYPE_NAME_FLOAT_LIST, true, "tail of float list"},
           { CAS::FEATURE_BASE_NAME_HEAD, CAS::TYPE_NAME_NON_EMPTY_INTEGER_LIST, CAS::TYPE_NAME_INTEGER, false, "head of integer list"},
-          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_INTEGER_LIST, CAS::TYPE_NAME_INTEGER_LIST, false, "tail of integer list"},
+          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_INTEGER_LIST, CAS::TYPE_NAME_INTEGER_LIST, true, "tail of integer list"},
           { CAS::FEATURE_BASE_NAME_HEAD, CAS::TYPE_NAME_NON_EMPTY_STRING_LIST, CAS::TYPE_NAME_STRING, false, "head of string list"},
-          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_STRING_LIST, CAS::TYPE_NAME_STRING_LIST, false, "tail of string list"}
+          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_STRING_LIST, CAS::TYPE_NAME_STRING_LIST, true, "tail of string list"}
         };
 
     char const * TYPE_NAME_INVALID               = "INVALID_TYPE";
-- 
2.43.0


From 0c52f2d0cce696620d771e21c03f35ca1a4abff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 037/143] fix: features of the empty and non-empty list types
 survive an XMI round trip

---
 src/cas/xmideserializer_handler.cpp | 13 ++++++++-----
 src/cas/xmiwriter.cpp               |  8 +-------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 6c7f2d1..a636731 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -1207,11 +1207,14 @@ void XmiDeserializerHandler::handleFeature(lowlevel::TyFS addr,
         lowlevel::TyFSFeature featcode = uima::internal::FSPromoter::demoteFeature(feat);
 
         //if not primitive
-        if (iv_cas->getTypeSystem().isFSType(rangetypecode)  ||
-          (iv_cas->getTypeSystem().isArrayType(rangetypecode) && 
-          feat.isMultipleReferencesAllowed() ) || 
-          (iv_cas->getTypeSystem().isListType(rangetypecode) && 
-          feat.isMultipleReferencesAllowed()) ) {
+        //only arrays and the general list types can be encoded in place
+        bool multiValued = iv_cas->getTypeSystem().isArrayType(rangetypecode)
+          || rangetypecode == internal::gs_tyFSListType
+          || rangetypecode == internal::gs_tyIntListType
+          || rangetypecode == internal::gs_tyFloatListType
+          || rangetypecode == internal::gs_tyStringListType;
+        if (!iv_cas->getTypeSystem().isPrimitive(rangetypecode)
+          && (!multiValued || feat.isMultipleReferencesAllowed()) ) {
             //get the current feature value which is the id
             lowlevel::TyFS featVal = iv_casimpl.getHeap().getFeatureInternal(addr, featcode);
             if (featVal != 0) {
diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index a64c159..53d8ab3 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -682,11 +682,7 @@ namespace uima {
           break;                               
         }
         case internal::gs_tyIntListType:
-        case internal::gs_tyEIntListType:
-        case internal::gs_tyNEIntListType:
         case internal::gs_tyFloatListType:
-        case internal::gs_tyEFloatListType:
-        case internal::gs_tyNEFloatListType:
         case internal::gs_tyFSListType:  {
           if (f.isMultipleReferencesAllowed() || insidelist) {
             writeFeatureValue(os, fs, f);
@@ -699,9 +695,7 @@ namespace uima {
           }
           break;
         }
-        case internal::gs_tyStringListType:
-        case internal::gs_tyEStringListType:
-        case internal::gs_tyNEStringListType: {
+        case internal::gs_tyStringListType: {
           FeatureStructure listFS = fs.getFSValue(f);
           if (listFS.isValid()) {
             if (f.isMultipleReferencesAllowed() ) {
-- 
2.43.0


From 0eeaecddf54c451f60dc09b8e0e569f815f28526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 038/143] fix: first-class string lists are written as such

---
 src/cas/xmiwriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 53d8ab3..dda5a42 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -698,7 +698,7 @@ namespace uima {
         case internal::gs_tyStringListType: {
           FeatureStructure listFS = fs.getFSValue(f);
           if (listFS.isValid()) {
-            if (f.isMultipleReferencesAllowed() ) {
+            if (f.isMultipleReferencesAllowed() || insidelist) {
               writeFeatureValue(os, fs, f);
             } else {
               if (fs.getFSValue(f).isValid()) {
-- 
2.43.0


From f20151e4a9eea86adceb0b5db7658985643d7dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 039/143] fix: XMI elements are only ignored for the xmi prefix

---
 src/cas/xmideserializer_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index a636731..697f061 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -152,7 +152,7 @@ namespace uima {
 										}
 		case FS_STATE: {
 			// ignore elements with XMI prefix (such as XMI annotations)  
-			if (qualifiedName.indexOf("xmi") > 0) {
+			if (qualifiedName.startsWith("xmi:")) {
 				this->iv_state = IGNORING_XMI_ELEMENTS_STATE;
 				this->ignoreDepth++;
 				return;
-- 
2.43.0


From 68927d8cb8cc42d34e4ade575ed74bb46d85db43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 040/143] fix: tab characters survive attribute value
 normalization

---
 src/cas/xmlwriter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index 98e5169..a462331 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -81,6 +81,7 @@ namespace uima {
     static icu::UnicodeString const ustrQUOT_ESC("&quot;");
     static icu::UnicodeString const ustrCR_ESC("&#13;");
     static icu::UnicodeString const ustrLF_ESC("&#10;");
+    static icu::UnicodeString const ustrTAB_ESC("&#9;");
 
     static UChar const uAMP('&');
     static UChar const uGT('>');
@@ -89,6 +90,7 @@ namespace uima {
     static UChar const uQUOT('"');
     static UChar const uCR('\r');
     static UChar const uLF('\n');
+    static UChar const uTAB('\t');
     
     const UChar * srcPtr = in.getBuffer();
 
@@ -115,6 +117,9 @@ namespace uima {
         case uLF: 
           out.append(ustrLF_ESC);
           break;
+        case uTAB: 
+          out.append(ustrTAB_ESC);
+          break;
         default:
           out.append(*srcPtr);
       }
-- 
2.43.0


From edefb1e4141225440e85f5181ddadff43f688dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:45 +0000
Subject: [PATCH 041/143] fix: an annotation created before the initial view
 has a Sofa belongs to the initial view

---
 src/cas/cas.cpp              | 14 ++++++++++----
 src/cas/featurestructure.cpp |  3 +--
 src/cas/uima/cas.hpp         |  2 ++
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 0106d96..b25403c 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -591,6 +591,14 @@ namespace uima {
     return (*cit).second;
   }
 
+  CAS* CAS::getViewOfAnnotationSofa(lowlevel::TyFS annSofaAddr) {
+    if (annSofaAddr == uima::lowlevel::FSHeap::INVALID_FS) {
+      // created before its view had a Sofa, which only the initial view can lack
+      return getInitialView();
+    }
+    return getViewBySofaNum(iv_heap->getIntValue(annSofaAddr, internal::gs_tySofaNumFeature));
+  }
+
   CAS* CAS::getView(const icu::UnicodeString & localViewName) {
     SofaID* sid;
     bool deleteSofaID = false;
@@ -1170,8 +1178,7 @@ namespace uima {
       lowlevel::TyFS annSofaAddr = getHeap()->getFSValue(tyCell, internal::gs_tySofaRefFeature);
       if ( annSofaAddr != internal::FSPromoter::demoteFS(getSofa())) {
         // does not agree. Get appropriate View for annotation Sofa
-        int annSofaNum = getHeap()->getIntValue(annSofaAddr, internal::gs_tySofaNumFeature);
-        return *getViewBySofaNum(annSofaNum);
+        return *getViewOfAnnotationSofa(annSofaAddr);
       }
     }
     return *this;
@@ -1291,8 +1298,7 @@ namespace uima {
   CAS * AnnotationFS::getView() {
     assert(EXISTS(iv_cas));
     lowlevel::TyFS annSofaAddr = iv_cas->getHeap()->getFSValue(iv_tyFS, internal::gs_tySofaRefFeature);
-    int annSofaNum = iv_cas->getHeap()->getIntValue(annSofaAddr, internal::gs_tySofaNumFeature);
-    return iv_cas->getViewBySofaNum(annSofaNum);
+    return iv_cas->getViewOfAnnotationSofa(annSofaAddr);
   }
 
   size_t AnnotationFS::getBeginPosition( void ) const {
diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index 0b10cef..482428b 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -298,8 +298,7 @@ namespace uima {
       lowlevel::TyFS annSofaAddr = iv_cas->getHeap()->getFSValue(resultAddr, internal::gs_tySofaRefFeature);
       if ( annSofaAddr != internal::FSPromoter::demoteFS(iv_cas->getSofa())) {
         // does not agree. Get appropriate View for annotation Sofa
-        int annSofaNum = iv_cas->getHeap()->getIntValue(annSofaAddr, internal::gs_tySofaNumFeature);
-        CAS* annTcas = iv_cas->getViewBySofaNum(annSofaNum);
+        CAS* annTcas = iv_cas->getViewOfAnnotationSofa(annSofaAddr);
         return FeatureStructure(resultAddr, (CAS &)*annTcas);
       }
     }
diff --git a/src/cas/uima/cas.hpp b/src/cas/uima/cas.hpp
index bd88b59..d2f5fbe 100644
--- a/src/cas/uima/cas.hpp
+++ b/src/cas/uima/cas.hpp
@@ -294,6 +294,8 @@ namespace uima {
      * Only for internal use. Return a View for given Sofa on heap
      */
     CAS* getViewBySofaNum(int sofaNum);
+    // view of an annotation, given the value of its sofa feature
+    CAS* getViewOfAnnotationSofa(lowlevel::TyFS annSofaAddr);
 
     /**
      * Only for internal use.
-- 
2.43.0


From 88bc3682a455ebfee57eb12d6d977900d9aa7d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 042/143] fix: XCAS strings are written as UTF-8 whatever the
 default converter is

---
 src/cas/xmlwriter.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index a462331..f7c86b9 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -468,10 +468,8 @@ namespace uima {
     if ( t == iv_stringType || t.isStringSubType() ) {
       UnicodeStringRef ref = fs.getStringValue(f);
       if (ref.getBuffer() != NULL) {
-        icu::UnicodeString us;
-        normalize( ref, us );
         os << " " << f.getName() << "=\"";
-        os << us << "\"";
+        os << normalizeToUTF8( ref ) << "\"";
       }
     } else if (t == iv_integerType) {
       os << " " << f.getName() << "=\"";
@@ -528,14 +526,11 @@ namespace uima {
 
 	void XCASWriter::writeStringArray(ostream & os, StringArrayFS const & array, char const * tag) {
     size_t i;
-    icu::UnicodeString ustr;
     if (array.size() > 0) {
       os << " size=\"" << array.size() << "\">" << endl;
       for (i=0; i<array.size(); ++i) {
         os << "  <" << tag << ">";
-        ustr.setTo("");
-				normalize(array.get(i),ustr);
-        os << ustr;
+        os << normalizeToUTF8(array.get(i));
         os << "</" << tag << ">" << endl;
       }
       os << " </" << array.getType().getName() << ">" << endl;
-- 
2.43.0


From 187f9b50341af7b3b6d709e98b0fc3a8357cba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 043/143] fix: floats and doubles in XCAS keep their value

---
 src/cas/xcasdeserializer_handler.cpp | 12 ++----------
 src/cas/xmlwriter.cpp                | 24 ++++++++++++++++--------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 505ddeb..ae26d83 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -674,11 +674,7 @@ namespace uima {
       }
     case internal::gs_tyDoubleArrayType: {
         DoubleArrayFS doubleFS(fs);
-        stringstream s;
-        s << UnicodeStringRef(buffer).asUTF8();
-        long double doubleval;
-        s >> doubleval;
-        doubleFS.set((size_t) arrayPos, doubleval);
+        doubleFS.set((size_t) arrayPos, strtod(UnicodeStringRef(buffer).asUTF8().c_str(), NULL));
         break;
       }
     default: {    //array of FSs
@@ -809,11 +805,7 @@ namespace uima {
       case internal::gs_tyDoubleType: {
           if (featVal.length() > 0) {
             string strval = UnicodeStringRef(featVal).asUTF8();
-            long double doubleval;
-            stringstream s;
-            s << strval.c_str();
-            s >> doubleval;
-            fs.setDoubleValue(feat, doubleval );
+            fs.setDoubleValue(feat, strtod(strval.c_str(), NULL) );
           }
           break;
         }
diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index f7c86b9..f7d33dd 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -476,7 +476,7 @@ namespace uima {
       os << fs.getIntValue(f) << "\"";
     } else if (t == iv_floatType) {
       os << " " << f.getName() << "=\"";
-      os << fs.getFloatValue(f) << "\"";
+      os << realToString(fs.getFloatValue(f)) << "\"";
     } else if (t == iv_byteType) {
       os << " " << f.getName() << "=\"";
       int val = fs.getByteValue(f);
@@ -492,9 +492,7 @@ namespace uima {
       os << fs.getLongValue(f) << "\"";
     } else if (t == iv_doubleType) {
       os << " " << f.getName() << "=\"";
-      stringstream s;
-      s << fs.getDoubleValue(f);
-      os << s.str() << "\"";
+      os << realToString(fs.getDoubleValue(f)) << "\"";
     } else {
 
       FeatureStructure referencedFS = fs.getFSValue(f);
@@ -567,7 +565,19 @@ namespace uima {
       if ( t == iv_intArrayType ) {
         writeArray( os, IntArrayFS(fs), "i");
       } else if ( t == iv_floatArrayType ) {
-        writeArray( os, FloatArrayFS(fs), "i");
+        FloatArrayFS array(fs);
+        if (array.size() > 0) {
+          os << " size=\"" << array.size() << "\">" << endl;
+          size_t i;
+          for (i=0; i<array.size(); ++i) {
+            os << "  <" << "i" << ">";
+            os << realToString(array.get(i));
+            os << "</" << "i" << ">" << endl;
+          }
+          os << " </" << array.getType().getName() << ">" << endl;
+        } else {
+          os << " size=\"0\"/>" << endl;
+        }
       } else if ( t == iv_stringArrayType ) {
         writeStringArray( os, StringArrayFS(fs), "i");
       } else if ( t == iv_byteArrayType ) {
@@ -596,9 +606,7 @@ namespace uima {
           size_t i;
           for (i=0; i<array.size(); ++i) {
             os << "  <" << "i" << ">";
-            stringstream s;
-            s << array.get(i);
-            os << s.str();
+            os << realToString(array.get(i));
             os << "</" << "i" << ">" << endl;
           }
           os << " </" << array.getType().getName() << ">" << endl;
-- 
2.43.0


From 49d17f4fd8037ff3b7ca35c09fd80b35ed8001e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 044/143] fix: an empty byte array in XCAS is well-formed

---
 src/cas/xmlwriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index f7d33dd..d530609 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -592,6 +592,8 @@ namespace uima {
             os << "</" << "i" << ">" << endl;
           }
           os << " </" << array.getType().getName() << ">" << endl;
+        } else {
+          os << " size=\"0\"/>" << endl;
         }
       } else if ( t == iv_booleanArrayType ) {
         writeArray( os, BooleanArrayFS(fs), "i");
-- 
2.43.0


From 519ac1e35c11b785ec9c2c053434f25f2fd25518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 045/143] fix: empty strings survive an XCAS round trip

---
 src/cas/xcasdeserializer_handler.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index ae26d83..5faf2cc 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -224,10 +224,9 @@ namespace uima {
     }
     case CONTENT_STATE: {
       // Set the value of the content feature.
-      //if (!isAllWhitespace(buffer))
-      //{
-      handleFeature(currentAddr, currentContentFeat, buffer, true);
-      //}            }
+      if (buffer.length() > 0) {
+        handleFeature(currentAddr, currentContentFeat, buffer, true);
+      }
       iv_state = FS_STATE;
       break;
     }
@@ -756,9 +755,7 @@ namespace uima {
           break;
         }
       case internal::gs_tyStringType: {
-          if (featVal.length() > 0) {
-            fs.setStringValue(feat, featVal);
-          }
+          fs.setStringValue(feat, featVal);
           break;
         }
       case internal::gs_tyByteType: {
@@ -811,8 +808,7 @@ namespace uima {
         }
       default: {
         if (rtype.isStringSubType()) {
-          if (featVal.length() > 0)
-            fs.setStringValue(feat, featVal);
+          fs.setStringValue(feat, featVal);
         } else if (featVal.length() > 0) {
           lowlevel::TyFS val = (lowlevel::TyFS) atoi(UnicodeStringRef(featVal).asUTF8().c_str());
           iv_casimpl.getHeap().setFeatureInternal(addr, uima::internal::FSPromoter::demoteFeature(feat), val);
-- 
2.43.0


From 3de6a78dae59702580d7e511036d9fb85782e9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 046/143] fix: references in XCAS to unknown ids are null
 rather than wild addresses

---
 src/cas/xcasdeserializer_handler.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 5faf2cc..da21e40 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -869,8 +869,8 @@ namespace uima {
           //set the feature value of this feature to the
           //address in FSInfo else set it to NULL;
           if (fsValInfo == NULL) {
-            //nothing to do, reference value already = 0!
-            //iv_casimpl.getHeap().setFSValue(addr, featcode, (lowlevel::TyFS) 0);
+            //the value still is the id, which is no address
+            iv_casimpl.getHeap().setFSValue(addr, featcode, (lowlevel::TyFS) 0);
           } else {
             iv_casimpl.getHeap().setFSValue(addr, featcode, fsValInfo->addr);
           }
@@ -894,9 +894,7 @@ namespace uima {
     for (int i=0; i<size; i++) {
       lowlevel::TyFS id = iv_cas->getHeap()->getHeap().getHeapValue(addr + 2 + i);
       fsValInfo = fsTree[id];
-      if (fsValInfo != NULL) {
-        iv_cas->getHeap()->getHeap().setHeapValue(addr + 2 + i, fsValInfo->addr);
-      }
+      iv_cas->getHeap()->getHeap().setHeapValue(addr + 2 + i, fsValInfo == NULL ? 0 : fsValInfo->addr);
     }
 
   }
-- 
2.43.0


From d8272916e2fd747eaa3a48dae34a5b1fbf8b0147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:26 +0000
Subject: [PATCH 047/143] fix: strict XMI reading rejects unknown features
 given as attributes

---
 src/cas/xmideserializer_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 697f061..efbfe04 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -628,7 +628,7 @@ namespace uima {
 					}
 					//cout << "readFS calling handleFeature " << attrName << " attrvalue= "
 					//	<< attrValue << endl;
-					handleFeature(addr, attrName, attrValue, true);
+					handleFeature(addr, attrName, attrValue, lenient);
 			}
 		}
 
-- 
2.43.0


From 187d4612c474697f8df7ae832ee882eb47719047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:26 +0000
Subject: [PATCH 048/143] fix: an array written in place is not written to XMI
 a second time

---
 src/cas/xmiwriter.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index dda5a42..0fdd812 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -797,7 +797,16 @@ void XmiWriter::findReferencedFSs(FeatureStructure const & fs, bool check) {
                 int typecode = internal::FSPromoter::demoteType(range);
                 switch (typecode) {
                     case internal::gs_tyFSArrayType:  {
-                      findReferencedFSs(fs.getFSValue(f));
+                      FeatureStructure arrayValue = fs.getFSValue(f);
+                      if (f.isMultipleReferencesAllowed() || ! arrayValue.isValid()) {
+                        findReferencedFSs(arrayValue);
+                      } else {
+                        // written in place: only its elements are elements of the document
+                        ArrayFS array(arrayValue);
+                        for (size_t j=0; j<array.size(); ++j) {
+                          findReferencedFSs(array.get(j));
+                        }
+                      }
                       break;
                   }
           case internal::gs_tyFSListType:  {
-- 
2.43.0


From 3b43ab77dea686bc8b48fc3c6a01f46c5414452b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 049/143] fix: 64-bit cells of a blob in the other byte order
 are swapped in full

---
 src/cas/internal_casdeserializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index 284bb5c..84f4977 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -732,7 +732,7 @@ namespace uima {
       output[5] = ((char*)&in)[2];
       output[6] = ((char*)&in)[1];
       output[7] = ((char*)&in)[0];
-      in = *(int*)output;
+      memcpy(&in, output, sizeof(in));
       return in;
     }
 
-- 
2.43.0


From bff89cb69bbcb10f6191357e5c9d9010a9134070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 050/143] fix: binary CASes without any subject of analysis are
 read correctly

---
 src/cas/internal_casdeserializer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index 84f4977..9ddec8a 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -644,6 +644,8 @@ namespace uima {
           assert( *loopit < iMaxOffset );
           crIndexRep->add( *loopit );
         }
+      } else {
+        ++cit;
       }
 
       // book keeping for all Sofas
-- 
2.43.0


From 13a212311987a4562ca4b6a51049ade4088eb07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 051/143] fix: reading a blob replaces the former contents of
 the CAS

---
 src/cas/internal_casdeserializer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index 9ddec8a..99beb80 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -870,6 +870,8 @@ namespace uima {
 
 
       // deserialize FSHeap
+      // nothing of the former contents (views, indexes, document) may remain
+      rCAS.getBaseCas()->reset();
       tyTempHeap.reset();
       size_t uiFSHeapLength = intPtr[2];
       if (uiFSHeapLength > 1) {
-- 
2.43.0


From 50c2edb0262021e4bc3e44d7ddd535d6ff06e814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 052/143] fix: blobs are deterministic: alignment gaps are zero

---
 src/cas/internal_casserializer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cas/internal_casserializer.cpp b/src/cas/internal_casserializer.cpp
index de4030b..30a4bc4 100644
--- a/src/cas/internal_casserializer.cpp
+++ b/src/cas/internal_casserializer.cpp
@@ -636,6 +636,9 @@ namespace uima {
         return 0;             // can't serialize into given buffer
       }
 
+      // alignment gaps are zero, not what the buffer happened to contain
+      memset(buffer, 0, blobSize);
+
       // copy all data into the blob buffer
       int* intPtr = (int*) buffer;
 
-- 
2.43.0


From e4456b4c05928855d52acdfd157891f9888abf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 053/143] fix: a CAS released twice is not handed out to two
 holders

---
 src/framework/caspool.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/framework/caspool.cpp b/src/framework/caspool.cpp
index 78e966e..2860577 100644
--- a/src/framework/caspool.cpp
+++ b/src/framework/caspool.cpp
@@ -30,6 +30,7 @@
 // ---------------------------------------------------------------------------
 
 
+#include <algorithm>
 #include "uima/caspool.hpp"
 #include "uima/err_ids.h"
 #include "uima/msg.h"
@@ -113,8 +114,14 @@ namespace uima {
 
   void CASPool::releaseCAS(CAS & aCas) {
 
-    aCas.reset();
-    iv_vecFreeInstances.push_back(&aCas);
+    // a CAS may be released through any of its views
+    CAS * pCas = aCas.getBaseCas()->getInitialView();
+    if (std::find(iv_vecAllInstances.begin(), iv_vecAllInstances.end(), pCas) == iv_vecAllInstances.end()
+        || std::find(iv_vecFreeInstances.begin(), iv_vecFreeInstances.end(), pCas) != iv_vecFreeInstances.end()) {
+      return;   // not from this pool, or already released
+    }
+    pCas->reset();
+    iv_vecFreeInstances.push_back(pCas);
     return;
   }
 
-- 
2.43.0


From 793fb1a166412ac447f3faade0ee5f1446c7d348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:17 +0000
Subject: [PATCH 054/143] fix: strings of a SerializedCAS do not dangle

---
 src/cas/internal_casserializer.cpp      | 11 ++++++-----
 src/cas/internal_serializedcas.cpp      |  5 ++---
 src/cas/uima/internal_serializedcas.hpp | 14 ++++++--------
 3 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/cas/internal_casserializer.cpp b/src/cas/internal_casserializer.cpp
index 30a4bc4..1e387e0 100644
--- a/src/cas/internal_casserializer.cpp
+++ b/src/cas/internal_casserializer.cpp
@@ -232,7 +232,7 @@ namespace uima {
         vector<icu::UnicodeString> const & stringValues = crTypeSystem.getStringsForStringSubtype(rSerializedCAS.iv_stringSubTypes[i]);
         size_t j;
         for (j=0; j<stringValues.size(); ++j) {
-          UnicodeStringRef ref(stringValues[j]);
+          UnicodeStringRef ref = createString(stringValues[j].getBuffer(), stringValues[j].length(), rSerializedCAS);
           rSerializedCAS.iv_stringSubTypeValues.push_back( ref );
         }
       }
@@ -259,8 +259,9 @@ namespace uima {
       size_t i;
       for (i=0; i<uiIndexNum; ++i) {
         uima::lowlevel::IndexDefinition::TyIndexID const & crIndexID = vecIndexIDs[i];
-        rSerializedCAS.iv_vecIndexIDTable[i] = createString( crIndexID.getBuffer(),
-                                               crIndexID.length(), rSerializedCAS);
+        // vecIndexIDs is local: these strings must always be copied
+        rSerializedCAS.iv_vecIndexIDTable[i] = rSerializedCAS.addString( UnicodeStringRef(crIndexID.getBuffer(),
+                                               crIndexID.length()) );
         rSerializedCAS.iv_vecIndexKindTable[i] = indexDef.getIndexKind( crIndexID );
         UIMA_TPRINT("Index ID: " << crIndexID );
         // start of the next comparator definition
@@ -349,9 +350,9 @@ namespace uima {
       int j = 1; // point at the first entry
       rSerializedCAS.iv_vecStringSymbolTable.resize(1);
       while (j < uiStringRefLength) {
-        UnicodeStringRef ustrp = UnicodeStringRef( tyStringHeap.getHeapStart()+
+        UnicodeStringRef ustrp = createString( tyStringHeap.getHeapStart()+
                                  tyStringRefHeap.getHeapValue(j),
-                                 (size_t) tyStringRefHeap.getHeapValue(j+1));
+                                 (size_t) tyStringRefHeap.getHeapValue(j+1), rSerializedCAS);
         rSerializedCAS.iv_vecStringSymbolTable.push_back(ustrp);
         j += 2;
       }
diff --git a/src/cas/internal_serializedcas.cpp b/src/cas/internal_serializedcas.cpp
index 38e9f1a..db41e56 100644
--- a/src/cas/internal_serializedcas.cpp
+++ b/src/cas/internal_serializedcas.cpp
@@ -55,14 +55,13 @@ namespace uima {
   namespace internal {
 
 //!TODO check this default size, particularly for blob-based data serialization
-    SerializedCAS::SerializedCAS()
-        : iv_stringHeap(10000, 0) {}
+    SerializedCAS::SerializedCAS() {}
 
     SerializedCAS::~SerializedCAS() {}
 
 
     void SerializedCAS::reset() {
-      iv_stringHeap.reset();
+      iv_copiedStrings.clear();
 
       iv_ulstrDocument = UnicodeStringRef();
 
diff --git a/src/cas/uima/internal_serializedcas.hpp b/src/cas/uima/internal_serializedcas.hpp
index 989bd3c..05e7f8c 100644
--- a/src/cas/uima/internal_serializedcas.hpp
+++ b/src/cas/uima/internal_serializedcas.hpp
@@ -37,6 +37,7 @@
 /*       Include dependencies                                              */
 /* ----------------------------------------------------------------------- */
 #include "uima/pragmas.hpp" // must be first file to be included to get pragmas
+#include <list>
 #include <vector>
 #include "uima/types.h"
 #include "uima/unistrref.hpp"
@@ -139,8 +140,8 @@ namespace uima {
       SerializedCAS & operator=(SerializedCAS const &);
       SerializedCAS(SerializedCAS const &);
 
-      typedef uima::lowlevel::internal::Heap<UChar> TyStringHeap;
-      TyStringHeap iv_stringHeap;
+      // copied strings: list elements never move, so references to them stay valid
+      std::list<icu::UnicodeString> iv_copiedStrings;
 
       UnicodeStringRef addString(UnicodeStringRef const & crRef);
 
@@ -299,12 +300,9 @@ namespace uima {
   namespace internal {
 
     inline UnicodeStringRef SerializedCAS::addString(UnicodeStringRef const & crRef) {
-      size_t l = crRef.length();
-      int pOff = iv_stringHeap.increaseHeap(l + 1);
-      UChar* p = iv_stringHeap.getHeapStart() + pOff;
-      assert( (2*l) == crRef.getSizeInBytes() );
-      memcpy(p, crRef.getBuffer(), crRef.getSizeInBytes() );
-      return UnicodeStringRef(p,l);
+      iv_copiedStrings.push_back( icu::UnicodeString(crRef.getBuffer(), crRef.length()) );
+      icu::UnicodeString const & crCopy = iv_copiedStrings.back();
+      return UnicodeStringRef(crCopy.getBuffer(), crCopy.length());
     }
   }
 }
-- 
2.43.0


From 0bc31ba195fa3c2f53a00c92b06f0549f6ef9348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 055/143] fix: error messages with long parameters do not
 overflow their buffer

---
 src/framework/exceptions.cpp | 62 ++++++++++--------------------------
 1 file changed, 16 insertions(+), 46 deletions(-)

diff --git a/src/framework/exceptions.cpp b/src/framework/exceptions.cpp
index bf6b084..f2a6424 100644
--- a/src/framework/exceptions.cpp
+++ b/src/framework/exceptions.cpp
@@ -198,7 +198,8 @@ namespace uima {
 
     // Check for unknown message id
     if (iv_utMsgId < 0 || iv_utMsgId > UIMA_MSG_ID_SIGNATURE_END) {
-      return string("Unknown message id " + iv_utMsgId);
+      string strId;
+      return string("Unknown message id ") + long2String(iv_utMsgId, strId);
     }
 
     //parameter substitution
@@ -207,66 +208,35 @@ namespace uima {
     const TCHAR ** messages = gs_aszMessageStringTable;
     const TCHAR * msg = messages[iv_utMsgId];
 
-    TCHAR * buf = new TCHAR[UIMA_MSG_MAX_STR_LEN];
-    memset(buf,'\0',UIMA_MSG_MAX_STR_LEN);
-
-    int numwritten=0;
-
-    TCHAR * trg = buf;
-    while (*msg) {
-      if (numwritten > UIMA_MSG_MAX_STR_LEN) {
-        break;
-      }
+    string target;
+    while (*msg && target.length() < UIMA_MSG_MAX_STR_LEN) {
       if (*msg == UIMA_MSG_REPLACE_CHAR) {
         msg = msg+1;
         if (*msg == UIMA_MSG_REPLACE_CHAR) {
-          *trg = *msg;
-          trg = trg +1;
-          ;
+          target += *msg;
           msg = msg+1;
-          numwritten++;
         } else {  //replace %n with the corresponding param
-          unsigned long index;
-          int len;
-          string arg;
           // determine the number of the specified argument ...
-          index = (unsigned long) atol(msg);
-          if (index > numparams)       // param not defined
-          {
-            arg = "???";      // replace it by "dont-know"
+          unsigned long index = (unsigned long) atol(msg);
+          if (index == 0 || index > numparams) {      // param not defined
+            target += "???";      // replace it by "dont-know"
           } else {
-            // ... the indexed argument ...
-            arg = iv_vecParams[index - 1]; // zero-based array!
-            //assert(arg.length() > 0);
-          }
-          len = arg.length();
-          // ... and then copy the argument
-          if (UIMA_MSG_MAX_STR_LEN-numwritten < len) {
-            len = UIMA_MSG_MAX_STR_LEN - numwritten;
+            // ... and then copy the argument
+            target += iv_vecParams[index - 1]; // zero-based array!
           }
-          if (len > 0) {
-            strncpy(trg, arg.c_str(), len);
-            trg = trg+len;
-          }
-          msg = msg+1;
-          while ( isdigit(*msg) ) { //handle arg number 10 or more
+          while ( isdigit((unsigned char) *msg) ) { //handle arg number 10 or more
             msg = msg+1;
           }
         }
       } else {
-        *trg = *msg;
-        trg = trg+1;
+        target += *msg;
         msg = msg+1;
       }
     }
-    //cout << buf << endl;
-   string target(buf);
-   delete[] buf ;
-   return target;
-	 //string target;
-	 //target.assign(buf, UIMA_MSG_MAX_STR_LEN);                   // Copy the result to the string
-   //delete buf;
-	 //return target;
+    if (target.length() > UIMA_MSG_MAX_STR_LEN) {
+      target.resize(UIMA_MSG_MAX_STR_LEN);
+    }
+    return target;
   }
 
   ostream &
-- 
2.43.0


From c399b1d2717d59526f662ab19de4ca2a0eb50e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 056/143] fix: a document's text and length come from the
 subject, not from the document annotation

---
 src/cas/cas.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index b25403c..993685c 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1046,6 +1046,10 @@ namespace uima {
 
   void CAS::pickupDocumentAnnotation( ) {
     // called from CAS binary deserialization
+    SofaFS thisSofa = getSofa();
+    if (thisSofa.isValid()) {
+      copyDocumentString(iv_heap->getStringValue(internal::FSPromoter::demoteFS(thisSofa), internal::gs_tySofaStringFeature));
+    }
     ANIndex ai = getAnnotationIndex(iv_heap->getTypeSystem().
                                     getType(CAS::TYPE_NAME_DOCUMENT_ANNOTATION));
     ANIterator ait = ai.iterator();
@@ -1054,10 +1058,6 @@ namespace uima {
       return;
     }
     iv_tyDocumentAnnotation = internal::FSPromoter::demoteFS(ait.get());
-    iv_uiDocumentLength = ait.get().getEndPosition();
-    uima::lowlevel::TyFS sofaAddr = iv_heap->getFSValue(iv_tyDocumentAnnotation, internal::gs_tySofaRefFeature);
-    UnicodeStringRef pDoc = iv_heap->getStringValue(sofaAddr, internal::gs_tySofaStringFeature);
-    copyDocumentString(pDoc);
   }
 
 //   void CAS::updateAndIndexDocumentAnnotation() {
-- 
2.43.0


From d29498cdcf46effae401e92892362118dc8ebe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 057/143] fix: XMI subjects without a name, or named like
 another, are rejected; their numbers are always assigned

---
 src/cas/uima/xmideserializer_handler.hpp |  1 +
 src/cas/xmideserializer_handler.cpp      | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/cas/uima/xmideserializer_handler.hpp b/src/cas/uima/xmideserializer_handler.hpp
index 4911e1e..df83d15 100644
--- a/src/cas/uima/xmideserializer_handler.hpp
+++ b/src/cas/uima/xmideserializer_handler.hpp
@@ -218,6 +218,7 @@ namespace uima {
 		icu::UnicodeString currentArrayElements;
 
 		int nextSofaNum; //number of sofas found so far
+		std::set<icu::UnicodeString> sofaIDs; //names of the sofas found so far
 
 		// Store a separate vector of FSList nodes that were deserialized 
 		// from multivalued properties.
diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index efbfe04..b297f31 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -58,6 +58,17 @@ using namespace std;
 
 namespace uima {
 
+	static void throwIllFormed(char const * what) {
+		ErrorInfo errInfo;
+		errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
+		ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
+		msg.addParam(what);
+		errInfo.setMessage(msg);
+		errInfo.setSeverity(ErrorInfo::unrecoverable);
+		ExcIllFormedInputError exc(errInfo);
+		throw exc;
+	}
+
 // ---------------------------------------------------------------------------
 //  XmiDeserialiserHandler: Constructors and Destructor
 // ---------------------------------------------------------------------------
@@ -594,6 +605,9 @@ namespace uima {
 				cout << "ACK!" << endl;
 			}
 			const UChar* sofaID = attrs.getValue(ubuff);
+			if (sofaID == NULL) {
+				throwIllFormed("Sofa without sofaID");
+			}
 
 			if (0==UnicodeStringRef(sofaID).compare(icu::UnicodeString("_DefaultTextSofaName"))) {  
 				// initial view Sofa always has sofaNum = 1
@@ -603,6 +617,12 @@ namespace uima {
 			}  else {
 				thisSofaNum = this->nextSofaNum++;
 			}
+			// every Sofa has its own name
+			if (!sofaIDs.insert(thisSofaNum == 1 ? icu::UnicodeString(CAS::NAME_DEFAULT_SOFA) : icu::UnicodeString(sofaID)).second) {
+				throwIllFormed("Duplicate sofaID");
+			}
+			// the number does not depend on what the document says
+			iv_cas->getHeap()->setIntValue(addr, internal::gs_tySofaNumFeature, thisSofaNum);
 		}
 
 		Type type = uima::internal::FSPromoter::promoteType(heapValue, iv_cas->getTypeSystem().getLowlevelTypeSystem());
-- 
2.43.0


From f05285506a4d8992b4ffb1b9032b764622823b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:02 +0000
Subject: [PATCH 058/143] fix: lowlevel heap growth cannot overflow and leaves
 the heap intact when memory is short

---
 src/cas/uima/lowlevel_internal_heap.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/cas/uima/lowlevel_internal_heap.hpp b/src/cas/uima/lowlevel_internal_heap.hpp
index afeb69f..f38f781 100644
--- a/src/cas/uima/lowlevel_internal_heap.hpp
+++ b/src/cas/uima/lowlevel_internal_heap.hpp
@@ -42,6 +42,7 @@
 
 #include "uima/macros.h"
 
+#include <new>
 #include <vector>
 
 #if defined( _MSC_VER )
@@ -179,25 +180,36 @@ namespace uima {
         int increaseHeap(WORD32 n) {
           //assert( n > 0 );
           int result = iv_topOfHeap;
-          iv_topOfHeap += n;
 
           // usual case, just return
-          if ( iv_topOfHeap < iv_uiCellNumber ) {
+          if ( n < iv_uiCellNumber - iv_topOfHeap ) {
+            iv_topOfHeap += n;
             return result;
           }
 
+          // heap addresses are ints: there cannot be more cells than that
+          const size_t uiMaxCells = 0x7FFFFFFF;
+          if ( n >= uiMaxCells - iv_topOfHeap ) {
+            throw std::bad_alloc();
+          }
           // calculate new heap size to be at least double current size
+          size_t uiNewCellNumber = iv_uiCellNumber;
           if ( n > iv_uiCellNumber ) {
-            iv_uiCellNumber += n;
+            uiNewCellNumber += n;
           } else {
-            iv_uiCellNumber *= 2;
+            uiNewCellNumber *= 2;
           }
-          T* iv_pTHeapNew = new T[iv_uiCellNumber];
+          if ( uiNewCellNumber > uiMaxCells ) {
+            uiNewCellNumber = uiMaxCells;
+          }
+          T* iv_pTHeapNew = new T[uiNewCellNumber];
           assert( iv_pTHeapNew != NULL );
           memcpy(iv_pTHeapNew, iv_pTHeap, result*sizeof(T));
-          memset(iv_pTHeapNew + result, iv_iDefaultValue, (iv_uiCellNumber - result)*sizeof(T));
+          memset(iv_pTHeapNew + result, iv_iDefaultValue, (uiNewCellNumber - result)*sizeof(T));
           delete[] iv_pTHeap;
           iv_pTHeap = iv_pTHeapNew;
+          iv_uiCellNumber = (WORD32) uiNewCellNumber;
+          iv_topOfHeap += n;
           return result;
         }
 
-- 
2.43.0


From 2b1dac07efe51c88b8cb756d6e237d3e0065cc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:02 +0000
Subject: [PATCH 059/143] fix: the view of a sofa that does not exist is an
 error, not the initial view under another number

---
 src/cas/cas.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 993685c..8db2364 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -580,9 +580,23 @@ namespace uima {
   // Get the CAS View from sofaNum value
   CAS* CAS::getViewBySofaNum(int sofaNum) {
     CAS* aTcas;
+    if (sofaNum == 1) {
+      return getInitialView(); // the only view that may lack a Sofa
+    }
     map<int, CAS*>::iterator cit = iv_baseCas->iv_sofa2tcasMap.find(sofaNum);
     if (cit == iv_baseCas->iv_sofa2tcasMap.end()) {
-      aTcas = (CAS*) new uima::internal::CASImpl(this->iv_baseCas, getSofa(sofaNum));
+      SofaFS sofa = getSofa(sofaNum);
+      if (!sofa.isValid()) {
+        ErrorMessage errMessage(UIMA_MSG_ID_EXC_SOFA_NAME_NOT_FOUND);
+        errMessage.addParam(sofaNum);
+        UIMA_EXC_THROW_NEW(DuplicateSofaNameException,
+                           UIMA_ERR_RESOURCE_NOT_FOUND,
+                           errMessage,
+                           UIMA_MSG_ID_NO_MESSAGE_AVAILABLE,
+                           ErrorInfo::unrecoverable
+                          );
+      }
+      aTcas = (CAS*) new uima::internal::CASImpl(this->iv_baseCas, sofa);
       assert ( EXISTS(aTcas) );
       pair<int, CAS*> p1(sofaNum, aTcas);
       iv_baseCas->iv_sofa2tcasMap.insert(p1);
@@ -596,7 +610,9 @@ namespace uima {
       // created before its view had a Sofa, which only the initial view can lack
       return getInitialView();
     }
-    return getViewBySofaNum(iv_heap->getIntValue(annSofaAddr, internal::gs_tySofaNumFeature));
+    // a damaged document can name anything as the sofa of an annotation
+    return getViewBySofaNum(iv_heap->getType(annSofaAddr) == internal::gs_tySofaType
+                            ? iv_heap->getIntValue(annSofaAddr, internal::gs_tySofaNumFeature) : -1);
   }
 
   CAS* CAS::getView(const icu::UnicodeString & localViewName) {
-- 
2.43.0


From 51314c2f91e0ca93f67d2b18335cddad1f397000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:02 +0000
Subject: [PATCH 060/143] fix: XCAS and XMI readers free everything on errors,
 convert every exception and accept long file names

---
 src/cas/xcasdeserializer.cpp | 138 +++++++++--------------------------
 src/cas/xmideserializer.cpp  |  12 +--
 2 files changed, 38 insertions(+), 112 deletions(-)

diff --git a/src/cas/xcasdeserializer.cpp b/src/cas/xcasdeserializer.cpp
index 2bad3b6..0f4704d 100644
--- a/src/cas/xcasdeserializer.cpp
+++ b/src/cas/xcasdeserializer.cpp
@@ -84,11 +84,7 @@ namespace uima {
   }
 
   void XCASDeserializer::deserialize(icu::UnicodeString & xcasFilename, CAS & cas) {
-    char buff[1024];
-    xcasFilename.extract(0, xcasFilename.length(), buff);
-	XMLCh* native = XMLString::transcode(buff);
-	LocalFileInputSource fileIS (native);
-	XMLString::release(&native);
+    LocalFileInputSource fileIS ((XMLCh const *) xcasFilename.getTerminatedBuffer());
     XCASDeserializer::deserialize(fileIS, cas);
   }
 
@@ -102,120 +98,58 @@ namespace uima {
   }
 
   void XCASDeserializer::deserialize(InputSource const & crInputSource, CAS & cas) {
-    // Create a SAX2 parser object.
-    SAX2XMLReader* parser = XMLReaderFactory::createXMLReader();
-
-    //register content handler
-    XCASDeserializerHandler * contentHandler = new XCASDeserializerHandler(cas, NULL);
-    parser->setContentHandler(contentHandler);
-
-    //register error handler
-    XMLErrorHandler* errorHandler = new XMLErrorHandler();
-    parser->setErrorHandler(errorHandler);
+    XCASDeserializer::deserialize(crInputSource, cas, NULL);
+  }
 
-    // Parse the XML document.
-    // Document content sent to registered ContentHandler instance.
-    try {
-      parser->parse(crInputSource);
-    } catch (const XMLException& e) {
-      char* message = XMLString::transcode(e.getMessage());
-      cerr << "XMLException message is: \n"
-      << message << "\n";
-
-      ErrorInfo errInfo;
-      errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
-      ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
-      assertWithMsg(sizeof(XMLCh) == sizeof(UChar), "Port required");
-      msg.addParam((UChar const *) e.getMessage() );
-      msg.addParam( 0 );
-      msg.addParam( 0 );
-      errInfo.setMessage(msg);
-      errInfo.setSeverity(ErrorInfo::unrecoverable);
-      ExcIllFormedInputError exc(errInfo);
-      throw exc;
-    }
-    catch (const SAXParseException& e) {
-      char* message = XMLString::transcode(e.getMessage());
-      cerr << "SaxParseException message is: \n"
-      << message << "\n";
-      ErrorInfo errInfo;
-      errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
-      ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
-      assertWithMsg(sizeof(XMLCh) == sizeof(UChar), "Port required");
-      msg.addParam((UChar const *) e.getMessage() );
-      msg.addParam( 0 );
-      msg.addParam( 0 );
-      errInfo.setMessage(msg);
-      errInfo.setSeverity(ErrorInfo::unrecoverable);
-      ExcIllFormedInputError exc(errInfo);
-      throw exc;
-    }
+  static void throwIllFormed(ErrorMessage & msg) {
+    ErrorInfo errInfo;
+    errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
+    msg.addParam( 0 );
+    msg.addParam( 0 );
+    errInfo.setMessage(msg);
+    errInfo.setSeverity(ErrorInfo::unrecoverable);
+    ExcIllFormedInputError exc(errInfo);
+    throw exc;
+  }
 
-    // Delete the parser instance and handlers
-    delete contentHandler;
-    delete errorHandler;
-    delete parser;
+  static void printMessage(char const * what, XMLCh const * pMessage) {
+    char* message = XMLString::transcode(pMessage);
+    cerr << what << " message is: \n"
+    << message << "\n";
+    XMLString::release(&message);
   }
 
   void XCASDeserializer::deserialize(InputSource const & crInputSource, CAS & cas, uima::AnnotatorContext  * const ctx) {
-    // Create a SAX2 parser object.
-    SAX2XMLReader* parser = XMLReaderFactory::createXMLReader();
-
-    //register content handler
-    XCASDeserializerHandler * contentHandler = new XCASDeserializerHandler(cas, ctx);
-    parser->setContentHandler(contentHandler);
+    // Content handler, error handler and parser instance; deleted in any case
+    unique_ptr<XCASDeserializerHandler> contentHandler(new XCASDeserializerHandler(cas, ctx));
+    unique_ptr<XMLErrorHandler> errorHandler(new XMLErrorHandler());
+    unique_ptr<SAX2XMLReader> parser(XMLReaderFactory::createXMLReader());
 
-    //register error handler
-    XMLErrorHandler* errorHandler = new XMLErrorHandler();
-    parser->setErrorHandler(errorHandler);
+    parser->setContentHandler(contentHandler.get());
+    parser->setErrorHandler(errorHandler.get());
 
     // Parse the XML document.
     // Document content sent to registered ContentHandler instance.
+    ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
+    assertWithMsg(sizeof(XMLCh) == sizeof(UChar), "Port required");
     try {
       parser->parse(crInputSource);
     } catch (const XMLException& e) {
-      char* message = XMLString::transcode(e.getMessage());
-      cerr << "XMLException message is: \n"
-      << message << "\n";
-
-      ErrorInfo errInfo;
-      errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
-      ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
-      assertWithMsg(sizeof(XMLCh) == sizeof(UChar), "Port required");
+      printMessage("XMLException", e.getMessage());
       msg.addParam((UChar const *) e.getMessage() );
-      msg.addParam( 0 );
-      msg.addParam( 0 );
-      errInfo.setMessage(msg);
-      errInfo.setSeverity(ErrorInfo::unrecoverable);
-      ExcIllFormedInputError exc(errInfo);
-      throw exc;
-    }
-    catch (const SAXParseException& e) {
-      char* message = XMLString::transcode(e.getMessage());
-      cerr << "SaxParseException message is: \n"
-      << message << "\n";
-      ErrorInfo errInfo;
-      errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
-      ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
-      assertWithMsg(sizeof(XMLCh) == sizeof(UChar), "Port required");
+      throwIllFormed(msg);
+    } catch (const SAXParseException& e) {
+      printMessage("SaxParseException", e.getMessage());
       msg.addParam((UChar const *) e.getMessage() );
-      msg.addParam( 0 );
-      msg.addParam( 0 );
-      errInfo.setMessage(msg);
-      errInfo.setSeverity(ErrorInfo::unrecoverable);
-      ExcIllFormedInputError exc(errInfo);
-      throw exc;
+      throwIllFormed(msg);
+    } catch (Exception & e) {
+      throw;
+    } catch (...) {
+      msg.addParam("Unknown Exception when parsing XCAS document." );
+      throwIllFormed(msg);
     }
-
-    // Delete the parser instance and handlers
-    delete contentHandler;
-    delete errorHandler;
-    delete parser;
   }
 
 
 }
 
-
-
-
diff --git a/src/cas/xmideserializer.cpp b/src/cas/xmideserializer.cpp
index 846b944..53f062a 100644
--- a/src/cas/xmideserializer.cpp
+++ b/src/cas/xmideserializer.cpp
@@ -84,11 +84,7 @@ namespace uima {
   }
 
   void XmiDeserializer::deserialize(icu::UnicodeString & xmiFilename, CAS & cas, bool lenient) {
-    char buff[1024];
-    xmiFilename.extract(0, xmiFilename.length(), buff);
-    XMLCh* native = XMLString::transcode(buff);
-    LocalFileInputSource fileIS (native);
-	XMLString::release(&native);
+    LocalFileInputSource fileIS ((XMLCh const *) xmiFilename.getTerminatedBuffer());
     XmiDeserializer::deserialize(fileIS, cas, lenient);
   }
 
@@ -314,11 +310,7 @@ namespace uima {
   void XmiDeserializer::deserialize(icu::UnicodeString & xmiFilename, 
 									CAS & cas,
 									XmiSerializationSharedData & sharedData) {
-    char buff[1024];
-    xmiFilename.extract(0, xmiFilename.length(), buff);
-    XMLCh* native = XMLString::transcode(buff);
-    LocalFileInputSource fileIS (native);
-	XMLString::release(&native);
+    LocalFileInputSource fileIS ((XMLCh const *) xmiFilename.getTerminatedBuffer());
     XmiDeserializer::deserialize(fileIS, cas, sharedData);
   }
 }
-- 
2.43.0


From b54dce9c5b7bd26859bdb7d17a9b90d7fdc141f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:02 +0000
Subject: [PATCH 061/143] fix: malformed XMI and XCAS documents are rejected
 without overflowing buffers or tables

---
 src/cas/uima/xcasdeserializer_handler.hpp |   8 +-
 src/cas/uima/xmideserializer_handler.hpp  |   1 +
 src/cas/xcasdeserializer_handler.cpp      | 175 +++++++++++++---------
 src/cas/xmideserializer_handler.cpp       |  15 +-
 4 files changed, 128 insertions(+), 71 deletions(-)

diff --git a/src/cas/uima/xcasdeserializer_handler.hpp b/src/cas/uima/xcasdeserializer_handler.hpp
index f5f50fa..202e031 100644
--- a/src/cas/uima/xcasdeserializer_handler.hpp
+++ b/src/cas/uima/xcasdeserializer_handler.hpp
@@ -32,6 +32,7 @@
 
 #include "uima/pragmas.hpp" //must be first to surpress warnings
 #include <map>
+#include <set>
 #include <stack>
 #include <utility>
 #include "xercesc/sax2/DefaultHandler.hpp"
@@ -127,6 +128,8 @@ namespace uima {
                        bool lenient);
     void finalizeFS(FSInfo & fsInfo);
     void readArray(Type & type, const Attributes & attrs);
+    void registerFS(int id, lowlevel::TyFS addr, std::vector<int> const & indexRep);
+    FSInfo * findFS(int id);
     void readArrayElement(icu::UnicodeString & qualifiedName, const Attributes & attrs);
     void addArrayElement(icu::UnicodeString & buffer);
     void finalizeArray(Type & type, lowlevel::TyFS addr, FSInfo & fsInfo);
@@ -169,9 +172,12 @@ namespace uima {
     std::vector<FSInfo*> idLess;
 
     //maps for deserializing v1.x format XCAS documents
-    std::vector<int> sofaRefMap;
+    std::map<int, int> sofaRefMap;
     std::vector<int> indexMap;
     int nextIndex;
+    // numbers and names of the Sofas found so far
+    std::set<int> sofaNums;
+    std::set<icu::UnicodeString> sofaIDs;
 
 
     AnnotatorContext * const iv_ctx;
diff --git a/src/cas/uima/xmideserializer_handler.hpp b/src/cas/uima/xmideserializer_handler.hpp
index df83d15..84afa2e 100644
--- a/src/cas/uima/xmideserializer_handler.hpp
+++ b/src/cas/uima/xmideserializer_handler.hpp
@@ -32,6 +32,7 @@
 
 #include "uima/pragmas.hpp" //must be first to surpress warnings
 #include <map>
+#include <set>
 #include <stack>
 #include <utility>
 #include "xercesc/sax2/DefaultHandler.hpp"
diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index da21e40..5c6bc6c 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -59,6 +59,29 @@ using namespace std;
 
 namespace uima {
 
+  static void throwIllFormed(char const * what, icu::UnicodeString const & value = icu::UnicodeString()) {
+    ErrorInfo errInfo;
+    errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
+    ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
+    msg.addParam( what );
+    msg.addParam( value );
+    errInfo.setMessage(msg);
+    errInfo.setSeverity(ErrorInfo::unrecoverable);
+    ExcIllFormedInputError exc(errInfo);
+    throw exc;
+  }
+
+  // blank separated numbers of views
+  static void parseIndexed(icu::UnicodeString const & value, vector<int> & views) {
+    string str = UnicodeStringRef(value).asUTF8();
+    string::size_type pos = str.find_first_not_of(' ');
+    while (pos != string::npos) {
+      string::size_type end = str.find(' ', pos);
+      views.push_back(atoi(str.substr(pos, end - pos).c_str()));
+      pos = str.find_first_not_of(' ', end);
+    }
+  }
+
 // ---------------------------------------------------------------------------
 //  XCASDeserialiserHandler: Constructors and Destructor
 // ---------------------------------------------------------------------------
@@ -84,15 +107,16 @@ namespace uima {
     iv_typesystem = &crHeap.getTypeSystem();
 
     // add entry for baseCAS ... point non-compliant annotations at first Sofa
-    sofaRefMap.push_back(1);
+    sofaRefMap[0] = 1;
+    currentAddr = 0;
     // add entry for baseCAS ... _indexed=0 stays in 0
     indexMap.push_back(0);
   }
 
   XCASDeserializerHandler::~XCASDeserializerHandler()   {
     if (DEBUG) std::cout << " XCASDeserializerHandler::destructor " << std::endl;
-    for (size_t i = 0; i < fsTree.size(); i++) {
-      FSInfo * fsinfo = (FSInfo*) fsTree[i];
+    for (map<int, FSInfo*>::iterator it = fsTree.begin(); it != fsTree.end(); ++it) {
+      FSInfo * fsinfo = it->second;
       if (fsinfo != 0) {
         delete fsinfo->indexRep;
         delete fsinfo;
@@ -224,7 +248,7 @@ namespace uima {
     }
     case CONTENT_STATE: {
       // Set the value of the content feature.
-      if (buffer.length() > 0) {
+      if (buffer.length() > 0 && currentAddr != 0) {
         handleFeature(currentAddr, currentContentFeat, buffer, true);
       }
       iv_state = FS_STATE;
@@ -254,15 +278,13 @@ namespace uima {
       // Set the document text without creating a documentAnnotation
       cas->setDocTextFromDeserializtion(UnicodeStringRef(buffer.getBuffer(), buffer.length()));
 
-      // and assume the new Sofa is at location 1!
-      int addr = 1;
+      int addr = uima::internal::FSPromoter::demoteFS(newSofa);
       int id = 1;
-      sofaRefMap.push_back(id);
+      sofaRefMap[1] = id;
 
       // and register the id for this Sofa
-      FSInfo * fsInfo = new FSInfo(addr, new vector<int>);
 //           FSInfo * fsInfo = new FSInfo(addr, -1); //??? Should be 0 or -1 ???
-      fsTree[id] =  fsInfo;
+      registerFS(id, addr, vector<int>());
 
       iv_state = FS_STATE;
       break;
@@ -277,8 +299,8 @@ namespace uima {
     //cout << " XCASDeserializerHandler::endDocument() " << endl;
 
     //update features that are FSs
-    for (size_t i = 0; i < fsTree.size(); i++) {
-      FSInfo * fsinfo = (FSInfo*) fsTree[i];
+    for (map<int, FSInfo*>::iterator it = fsTree.begin(); it != fsTree.end(); ++it) {
+      FSInfo * fsinfo = it->second;
       if (fsinfo != 0)
         finalizeFS(*fsinfo);
     }
@@ -316,6 +338,7 @@ namespace uima {
 
     if (!type.isValid() ) {
       cout << "INFO: invalid type " << typeName << endl;
+      currentAddr = 0; // ignore its content
       iv_state = CONTENT_STATE;
     } else {
       if (iv_cas->getTypeSystem().isArrayType(typecode)) {
@@ -333,10 +356,11 @@ namespace uima {
 
     int id = -1;
 //       int sofaRef = -1; // 0 ==> baseCas indexRepository
-    vector<int>* sofaRef = new vector<int>;
+    vector<int> sofaRef;
     icu::UnicodeString attrName;
     icu::UnicodeString attrValue;
     bool nameMapping = false;
+    int sofaNum = 0;
     UChar ubuff[256];
     UErrorCode errorCode = U_ZERO_ERROR;
     lowlevel::TyFS heapValue = iv_casimpl.getHeap().getType(addr);
@@ -353,6 +377,9 @@ namespace uima {
         cout << "ACK!" << endl;
       }
       const UChar* sofaID = attrs.getValue(ubuff);
+      if (sofaID == NULL) {
+        throwIllFormed("Sofa without sofaID");
+      }
       if (0==UnicodeStringRef(sofaID).compare(icu::UnicodeString("_DefaultTextSofaName"))) {
         sofaID = ubuff;
       }
@@ -370,12 +397,15 @@ namespace uima {
         cout << "ACK!" << endl;
       }
       const UChar* aString = attrs.getValue(ubuff);
+      if (aString == NULL) {
+        throwIllFormed("Sofa without sofaNum", sofaID);
+      }
       int thisSofaNum = atoi(UnicodeStringRef(aString).asUTF8().c_str());
 
       // get the sofa's FeatureStructure id
       icu::UnicodeString(ID_ATTR_NAME).extract(ubuff,256, errorCode);
       aString = attrs.getValue(ubuff);
-      int sofaFsId = atoi(UnicodeStringRef(aString).asUTF8().c_str());
+      int sofaFsId = aString == NULL ? 0 : atoi(UnicodeStringRef(aString).asUTF8().c_str());
 
       // for v1 and v2 formats, create the index map
       // ***we assume Sofas are always received in Sofanum order***
@@ -399,7 +429,9 @@ namespace uima {
             // the first Sofa not initial, but sofaNum > 1
             // must be a v2 format, and sofaNum better be 2
             indexMap.push_back(1);
-            assert (thisSofaNum == 2);
+            if (thisSofaNum != 2) {
+              throwIllFormed("Sofas not in sofaNum order", sofaID);
+            }
             indexMap.push_back(2);
             nextIndex = 3;
           } else {
@@ -413,7 +445,7 @@ namespace uima {
         if (isInitialView) {
           // the initial view is not the first
           // if v2 format, space already reserved in mapping
-          if (indexMap.size() == thisSofaNum) {
+          if ((int) indexMap.size() == thisSofaNum) {
             // v1 format, add mapping for initial view
             indexMap.push_back(1);
           }
@@ -423,18 +455,16 @@ namespace uima {
         }
       }
 
-      // Now update the mapping from annotation int to ref values
-      if (sofaRefMap.size() == thisSofaNum) {
-        // Sofa received in sofaNum order, add new one
-        sofaRefMap.push_back(sofaFsId);
-      } else if ((int)sofaRefMap.size() > thisSofaNum) {
-        // new Sofa has lower sofaNum than last one
-        sofaRefMap[thisSofaNum] =  sofaFsId;
-      } else {
-        // new Sofa has skipped ahead more than 1
-        sofaRefMap.resize(thisSofaNum + 1);
-        sofaRefMap[thisSofaNum] = sofaFsId;
+      // v1.x sofanum values are remapped so that _InitialView always == 1
+      if (thisSofaNum < 1 || thisSofaNum >= (int) indexMap.size() || indexMap[thisSofaNum] < 1
+          || !sofaNums.insert(indexMap[thisSofaNum]).second
+          || !sofaIDs.insert(icu::UnicodeString(sofaID)).second) {
+        throwIllFormed("Sofas not in sofaNum order, or duplicate", sofaID);
       }
+      sofaNum = indexMap[thisSofaNum];
+
+      // Now update the mapping from annotation int to ref values
+      sofaRefMap[thisSofaNum] = sofaFsId;
     }
 
     Type type = uima::internal::FSPromoter::promoteType(heapValue, iv_cas->getTypeSystem().getLowlevelTypeSystem());
@@ -456,14 +486,7 @@ namespace uima {
 //               else if (!attrValue.compare("false") == 0)
 //                 sofaRef = atoi(uniStr2SingleByteStr(attrValue,"UTF-8").c_str());
 //             }
-          char indexes[256];
-          // we have a problem here if number of indexed views is ridiculously big
-          strcpy(indexes, UnicodeStringRef(attrValue).asUTF8().c_str());
-          char* ptr = strtok (indexes," ");
-          while (ptr != NULL) {
-            sofaRef->push_back(atoi(ptr));
-            ptr = strtok (NULL, " ");
-          }
+          parseIndexed(attrValue, sofaRef);
         } else {
           handleFeature(type, addr, attrName, attrValue, false);
         }
@@ -478,6 +501,7 @@ namespace uima {
     }
     if (sofaTypeCode == heapValue) {
       // If a Sofa, create CAS view to get new indexRepository
+      iv_casimpl.getHeap().setIntValue(addr, internal::gs_tySofaNumFeature, sofaNum);
       SofaFS sofa = (SofaFS) uima::internal::FSPromoter::promoteFS(addr, *iv_cas);
       //also add to indexes so we can retrieve the Sofa later
       iv_cas->getBaseIndexRepository().addFS(sofa);
@@ -495,19 +519,29 @@ namespace uima {
     }
 
     // sofaRef.size()==0 means not indexed
-    FSInfo * fsInfo = new FSInfo(addr, sofaRef);
+    registerFS(id, addr, sofaRef);
+    iv_state = CONTENT_STATE;
+
+  }
+
+  // remember an FS and the views it is indexed in
+  void XCASDeserializerHandler::registerFS(int id, lowlevel::TyFS addr, vector<int> const & indexRep) {
+    if (id >= 0 && fsTree.find(id) != fsTree.end()) {
+      stringstream str;
+      str << id;
+      throwIllFormed("Duplicate _id", icu::UnicodeString(str.str().c_str()));
+    }
+    FSInfo * fsInfo = new FSInfo(addr, new vector<int>(indexRep));
     if (id < 0) {
       idLess.push_back(fsInfo);
     } else {
       fsTree[id] =  fsInfo;
     }
-    iv_state = CONTENT_STATE;
-
   }
 
   void XCASDeserializerHandler::readArray(Type & type, const Attributes  & attrs) {
 
-    vector<int>* indexRep = new vector<int>;
+    vector<int> indexRep;
     int id = -1;
     int size=0;
     icu::UnicodeString attrName;
@@ -528,14 +562,7 @@ namespace uima {
 //                 indexRep = 1;
 //               else if (!attrValue.compare("false") == 0)
 //                 indexRep = atoi(uniStr2SingleByteStr(attrValue,"UTF-8").c_str());
-        char indexes[256];
-        // we have a problem here if number of indexed views is ridiculously big
-        strcpy(indexes, UnicodeStringRef(attrValue).asUTF8().c_str());
-        char* ptr = strtok (indexes," ");
-        while (ptr != NULL) {
-          indexRep->push_back(atoi(ptr));
-          ptr = strtok (NULL, " ");
-        }
+        parseIndexed(attrValue, indexRep);
       } else {
         ErrorInfo errInfo;
         errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
@@ -551,18 +578,17 @@ namespace uima {
     }
 
 
+    if (size < 0) {
+      throwIllFormed("Negative array size");
+    }
+
     arrayType = uima::internal::FSPromoter::demoteType(type);
     currentAddr = iv_casimpl.getHeap().createArrayFS(arrayType, size);
 
     arrayPos=0;
 
     // indexRep.size()==0 means not indexed
-    FSInfo * fsInfo = new FSInfo(currentAddr, indexRep);
-    if (id < 0) {
-      idLess.push_back(fsInfo);
-    } else {
-      fsTree[id] =  fsInfo;
-    }
+    registerFS(id, currentAddr, indexRep);
     iv_state = ARRAY_ELE_STATE;
 
   }
@@ -690,36 +716,39 @@ namespace uima {
 
 
   // Create a feature value from a string representation.
+  // The number and the name of a Sofa identify its view: they are plain attributes, known when the view is created
+  static void checkNotSofaIdentity(lowlevel::TyFSType fstype, icu::UnicodeString const & featName) {
+    if (fstype == internal::gs_tySofaType &&
+        (featName.compare(CAS::FEATURE_BASE_NAME_SOFANUM) == 0 || featName.compare(CAS::FEATURE_BASE_NAME_SOFAID) == 0)) {
+      throwIllFormed("Sofa number or name is not an attribute", featName);
+    }
+  }
+
   void XCASDeserializerHandler::handleFeature(lowlevel::TyFS addr, icu::UnicodeString & featName, icu::UnicodeString & featVal, bool lenient) {
 
     lowlevel::TyFSType fstype = iv_casimpl.getHeap().getType(addr);
     Type type = uima::internal::FSPromoter::promoteType(fstype, iv_cas->getTypeSystem().getLowlevelTypeSystem());
+    checkNotSofaIdentity(fstype, featName);
     handleFeature(type, addr, featName, featVal, lenient);
   }
 
   void XCASDeserializerHandler::handleFeature(Type & type, lowlevel::TyFS addr, icu::UnicodeString & featName, icu::UnicodeString & featVal,
       bool lenient) {
-    char charFeatVal[10];
-
     // handle v1.x format annotations, mapping int to ref values
     lowlevel::TyFSType fstype = iv_casimpl.getHeap().getType(addr);
     if (0==featName.compare("sofa") &&
         iv_typesystem->subsumes(internal::gs_tyAnnotationBaseType, fstype)) {
       int ifeatval = atoi(UnicodeStringRef(featVal).asUTF8().c_str());
-      sprintf(charFeatVal, "%d", sofaRefMap[ifeatval]);
-      featVal.setTo(icu::UnicodeString(charFeatVal));
-    }
-
-    // handle v1.x sofanum values, remapping so that _InitialView always == 1
-    if (0==featName.compare(CAS::FEATURE_BASE_NAME_SOFAID)
-        && sofaTypeCode == fstype) {
-      int sofaNum = iv_casimpl.getHeap().getIntValue(addr, internal::gs_tySofaNumFeature);
-      iv_casimpl.getHeap().setIntValue(addr, internal::gs_tySofaNumFeature, indexMap[sofaNum]);
+      map<int, int>::const_iterator it = sofaRefMap.find(ifeatval);
+      stringstream str;
+      str << (it == sofaRefMap.end() ? 0 : it->second);
+      featVal.setTo(icu::UnicodeString(str.str().c_str()));
     }
 
     icu::UnicodeString prefix(REF_PREFIX);
     if (featName.startsWith(REF_PREFIX)) {
       featName.remove(0,prefix.length());             // Delete prefix
+      checkNotSofaIdentity(fstype, featName);
     }
     FeatureStructure fs = uima::internal::FSPromoter::promoteFS(addr, *iv_cas);
     Feature feat = type.getFeatureByBaseName(featName);
@@ -819,6 +848,11 @@ namespace uima {
     }
   }
 
+  FSInfo * XCASDeserializerHandler::findFS(int id) {
+    map<int, FSInfo*>::iterator it = fsTree.find(id);
+    return it == fsTree.end() ? NULL : it->second;
+  }
+
   void XCASDeserializerHandler::finalizeFS(FSInfo & fsInfo) {
     lowlevel::TyFS addr = fsInfo.addr;
     FeatureStructure fs = uima::internal::FSPromoter::promoteFS(addr, *iv_cas);
@@ -828,11 +862,14 @@ namespace uima {
       // Now add FS to all specified index repositories
       for (int i = 0; i < (int)fsInfo.indexRep->size(); i++) {
         lowlevel::IndexRepository *  pIndexRep;
-        if (indexMap.size() == 1) {
-          pIndexRep = indexRepositories[fsInfo.indexRep->at(i)];
-        } else {
-          pIndexRep = indexRepositories[indexMap[fsInfo.indexRep->at(i)]];
+        int iView = fsInfo.indexRep->at(i);
+        if (indexMap.size() > 1) {
+          iView = iView < 0 || iView >= (int) indexMap.size() ? -1 : indexMap[iView];
+        }
+        if (iView < 0 || iView >= (int) indexRepositories.size()) {
+          throwIllFormed("FS indexed in an unknown view");
         }
+        pIndexRep = indexRepositories[iView];
         assert(EXISTS(pIndexRep));
         pIndexRep->add(addr);
       }
@@ -864,7 +901,7 @@ namespace uima {
           //get the current feature value which is the id
           lowlevel::TyFS featVal = iv_casimpl.getHeap().getFeatureInternal(addr, featcode);
           //get the FSInfo object for that id
-          fsValInfo = (FSInfo*) fsTree[featVal];
+          fsValInfo = findFS(featVal);
           //if there is a FSInfo
           //set the feature value of this feature to the
           //address in FSInfo else set it to NULL;
@@ -893,7 +930,7 @@ namespace uima {
     FSInfo * fsValInfo;
     for (int i=0; i<size; i++) {
       lowlevel::TyFS id = iv_cas->getHeap()->getHeap().getHeapValue(addr + 2 + i);
-      fsValInfo = fsTree[id];
+      fsValInfo = findFS(id);
       iv_cas->getHeap()->getHeap().setHeapValue(addr + 2 + i, fsValInfo == NULL ? 0 : fsValInfo->addr);
     }
 
diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index b297f31..a1a217d 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -77,6 +77,7 @@ namespace uima {
 		XmiSerializationSharedData * xmiSharedData, bool len) : iv_cas(cas.getBaseCas() ),
 		iv_locator(NULL), iv_casimpl( uima::internal::CASImpl::promoteCAS(*iv_cas)),
 		sharedData(xmiSharedData), ownsSharedData(false), outOfTypeSystemElement(NULL) {
+			currentAddr = 0;
 	        lenient = len;
 			if (this->sharedData==NULL) {
 				this->sharedData = new XmiSerializationSharedData();
@@ -108,6 +109,10 @@ namespace uima {
 			if (ownsSharedData)  {
 				delete sharedData;
 			}
+			map<icu::UnicodeString, vector<icu::UnicodeString>*>::iterator ite;
+			for (ite = multiValuedFeatures.begin(); ite != multiValuedFeatures.end(); ite++) {
+				delete ite->second;
+			}
 			//cout << " XmiDeserializerHandler::destructor done " << endl;
 		}
 
@@ -491,7 +496,7 @@ namespace uima {
 
         //cout << "xmiId " << currentArrayId << " type=" << typeName << " elements=" << currentArrayElements << endl;
 				if (internal::FSPromoter::demoteType(type) == internal::gs_tyByteArrayType) {
-					int addr = createByteArray(currentArrayElements, currentArrayId);
+					currentAddr = createByteArray(currentArrayElements, currentArrayId);
 				} 
 
 			} else {
@@ -525,6 +530,9 @@ namespace uima {
 				//cout << __LINE__ << " calling getFsAddrForXmiId " << sofaXmiId << endl;
 				int sofaAddr = getFsAddrForXmiId(sofaXmiId);
 
+				if (iv_cas->getHeap()->getType(sofaAddr) != sofaTypeCode) {
+					throwIllFormed("View of something that is not a Sofa");
+				}
 				sofaNum = iv_cas->getHeap()->getIntValue(sofaAddr, internal::gs_tySofaNumFeature);
 			}
 			lowlevel::IndexRepository * indexRep =  indexRepositories.at(sofaNum);
@@ -980,6 +988,11 @@ namespace uima {
                           icu::UnicodeString & featName,
                           vector<string> & featVal) {
     lowlevel::TyFSType fstype = iv_casimpl.getHeap().getType(addr);
+    if (fstype == sofaTypeCode && (featName.compare(CAS::FEATURE_BASE_NAME_SOFANUM) == 0
+                                   || featName.compare(CAS::FEATURE_BASE_NAME_SOFAID) == 0)) {
+      // these identify the view, which exists already
+      throwIllFormed("Sofa number or name as child element");
+    }
     Type type = uima::internal::FSPromoter::promoteType(fstype, iv_cas->getTypeSystem().getLowlevelTypeSystem());
     Feature feat = type.getFeatureByBaseName(featName);
     if (!feat.isValid()) {
-- 
2.43.0


From edb121d7ca7d886b955ad20a54c1ca9e4e62b424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:35 +0000
Subject: [PATCH 062/143] fix: languages may contain x; text with other
 characters is not a language; invalid languages have no territory

---
 src/framework/language.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/framework/language.cpp b/src/framework/language.cpp
index 77bf025..7007fb6 100644
--- a/src/framework/language.cpp
+++ b/src/framework/language.cpp
@@ -74,7 +74,7 @@ namespace uima {
   Language::init( const char * cpszLanguageCode ) {
     // Check that have 2 chars (a-z) or 2 such pairs separated by - or _
 
-    static const char legalChars[] = "abcdefghijklmnopqrstuvwzyz";
+    static const char legalChars[] = "abcdefghijklmnopqrstuvwxyz";
 
     memset(iv_locale, '\0', 6);                           // Start with all 0's
     memset(iv_lang,   '\0', 3);
@@ -84,21 +84,24 @@ namespace uima {
       return;                                             // Unspecified
 
     if (len == 2 || len == 5) {
-      iv_locale[0] = tolower(cpszLanguageCode[0]);        // language "ll"
-      iv_locale[1] = tolower(cpszLanguageCode[1]);
+      iv_locale[0] = tolower((unsigned char) cpszLanguageCode[0]);        // language "ll"
+      iv_locale[1] = tolower((unsigned char) cpszLanguageCode[1]);
       if (len == 5) {
         if (cpszLanguageCode[2] == '-' || cpszLanguageCode[2] == '_')
           iv_locale[2] = 'a';                             // Temporarily "legal"
         else
           iv_locale[2] = '?';                             // Illegal separator
-        iv_locale[3] = tolower(cpszLanguageCode[3]);      // territory "cc"
-        iv_locale[4] = tolower(cpszLanguageCode[4]);
+        iv_locale[3] = tolower((unsigned char) cpszLanguageCode[3]);      // territory "cc"
+        iv_locale[4] = tolower((unsigned char) cpszLanguageCode[4]);
       }
     } else
       iv_locale[0] = '?';                                 // Illegal length 1,3,4,6,7,...
 
     if ( strspn(iv_locale, legalChars) < len )            // Illegal characters?
+    {
+      memset(iv_locale, '\0', 6);
       strcpy(iv_locale, "??");                            // Invalid
+    }
     else {
       if ( len == 5 )
         iv_locale[2] = '-';                               // Normalize to -
@@ -109,7 +112,11 @@ namespace uima {
 
   void
   Language::_initFromString( const string & crstrLanguageCode ) {
-    init(crstrLanguageCode.c_str());
+    if (crstrLanguageCode.find('\0') != string::npos) {
+      init(INVALID); // more than a C string
+    } else {
+      init(crstrLanguageCode.c_str());
+    }
   }
 
   void
@@ -117,8 +124,11 @@ namespace uima {
     size_t const MAX_LEN = 32;
     char buff[MAX_LEN];
     size_t uiLen = min(MAX_LEN-1, (size_t)crustrLanguageCode.length());
-    // this conversion does invariant chars only but it is fast
-    u_UCharsToChars(crustrLanguageCode.getBuffer(), buff, uiLen);
+    // only invariant chars can be legal
+    for (size_t i = 0; i < uiLen; ++i) {
+      UChar c = crustrLanguageCode.getBuffer()[i];
+      buff[i] = (c > 0 && c < 0x80) ? (char) c : '?';
+    }
     // zero terminate buffer
     buff[uiLen] = char(0);
     init(buff);
-- 
2.43.0


From 00c3e8a7e93b3bd44ede85bcb5576a5d30cf8ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:35 +0000
Subject: [PATCH 063/143] fix: UIMACPP_STREAMHANDLERS without a further pair
 ends the list of stream handlers

---
 src/framework/resmgr.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/framework/resmgr.cpp b/src/framework/resmgr.cpp
index 111ff0e..57dadcc 100644
--- a/src/framework/resmgr.cpp
+++ b/src/framework/resmgr.cpp
@@ -270,6 +270,9 @@ namespace uima {
         while (*curptr == ' ')
           ++curptr;
         chptr = strchr(curptr, ':');
+        if (chptr == NULL) {
+          break; // no more pairs
+        }
 
         int len = chptr - curptr;
         if (len > 0) {
-- 
2.43.0


From bdef9fae6fece3a78525613a15bc1cd2febac19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:35 +0000
Subject: [PATCH 064/143] fix: sofa data streams survive heap growth and
 reopening, count elements and stay inside the data

---
 src/cas/sofastream.cpp      | 107 ++++++++++++++++++++++++------------
 src/cas/uima/sofastream.hpp |   4 +-
 2 files changed, 74 insertions(+), 37 deletions(-)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index be3d237..53fae38 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -61,8 +61,8 @@ namespace uima {
     assert(iv_psofafs->getType().getName().compare( UnicodeStringRef(CAS::TYPE_NAME_SOFA)) == 0 );
   }
 
-  //Destructor
-  RemoteSofaDataStream::~RemoteSofaDataStream() {
+  // close the stream and unload its handler
+  void RemoteSofaDataStream::releaseHandler() {
     if (iv_pHandler != NULL) {
       iv_pHandler->closeStream();
       delete iv_pHandler;
@@ -72,6 +72,11 @@ namespace uima {
       delete iv_pHandlerDll;
       iv_pHandlerDll=NULL;
     }
+  }
+
+  //Destructor
+  RemoteSofaDataStream::~RemoteSofaDataStream() {
+    releaseHandler();
     if (iv_psofafs != NULL) {
       delete iv_psofafs;
     }
@@ -81,15 +86,13 @@ namespace uima {
 
   //open - minbufsize optional
   int RemoteSofaDataStream::open(size_t minbufsize) {
+    releaseHandler();
     std::string sofauri;
     std::string urischeme;
     util::Filename const * pDllFile=NULL;
 
     //get the sofa uri as UTF-8 string
-    iv_psofafs->getSofaURI().extract(0,
-                                     iv_psofafs->getSofaURI().length(),
-                                     sofauri,
-                                     CCSID::getDefaultSBCSInputCCSID() );
+    sofauri = iv_psofafs->getSofaURI().asUTF8();
     //get the uri scheme
     int32_t pos = sofauri.find(":");
     if (pos != -1) {
@@ -225,7 +228,7 @@ namespace uima {
                          UIMA_MSG_ID_EXCON_SOFADATASTREAM,
                          ErrorInfo::unrecoverable);
     }
-    INT64 numbytesread = elementSize*numElements;
+    INT64 numbytesread = (INT64) elementSize * (INT64) numElements;
 
     //read bytes
     numbytesread = iv_pHandler->getNext(numbytesread,pbuffer);
@@ -286,7 +289,7 @@ namespace uima {
 
   //Constructor
   LocalSofaDataStream::LocalSofaDataStream(SofaFS& aSofaFS) : iv_psofafs(NULL),
-      iv_psofadata(NULL), iv_pstringsofadata(NULL), iv_size(0),
+      iv_isopen(false), iv_pstringsofadata(NULL), iv_size(0),
       iv_isstring(false), iv_isintarray(false),
       iv_isfloatarray(false), iv_isbooleanarray(false),
       iv_isbytearray(false),iv_isshortarray(false),
@@ -311,13 +314,13 @@ namespace uima {
     Feature stringfeat = type.getFeatureByBaseName(CAS::FEATURE_BASE_NAME_SOFASTRING);
     Feature arrayfeat = type.getFeatureByBaseName(CAS::FEATURE_BASE_NAME_SOFAARRAY);
 
-    iv_curpos=0;
+    close();
     if  ( !iv_psofafs->isUntouchedFSValue(stringfeat) ) {     //local sofa - data in string
       //convert string to UTF-8
       UErrorCode errorcode = U_ZERO_ERROR ;
       iv_size=0;
       int32_t len;
-      iv_psofadata = u_strToUTF8(NULL, 0,
+      u_strToUTF8(NULL, 0,
                                  &len,
                                  iv_psofafs->getStringValue(stringfeat).getBuffer(),
                                  iv_psofafs->getStringValue(stringfeat).length(),
@@ -334,7 +337,7 @@ namespace uima {
       iv_pstringsofadata = new char[len];
       iv_size = len;
       errorcode = U_ZERO_ERROR ;
-      iv_psofadata = u_strToUTF8(iv_pstringsofadata, iv_size,
+      u_strToUTF8(iv_pstringsofadata, iv_size,
                                  &len,
                                  iv_psofafs->getStringValue(stringfeat).getBuffer(),
                                  iv_psofafs->getStringValue(stringfeat).length(),
@@ -356,31 +359,24 @@ namespace uima {
       UnicodeStringRef rangeTypeName = rangeType.getName();
 
       if (rangeTypeName.compare(CAS::TYPE_NAME_INTEGER_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->getCArrayFromFS(arrayFS.iv_tyFS);
         iv_size = iv_psofafs->getIntArrayFSValue(arrayfeat).size()*sizeof(int);
         iv_isintarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_FLOAT_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->getCArrayFromFS(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getFloatArrayFSValue(arrayfeat).size()*sizeof(float);
         iv_isfloatarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_BOOLEAN_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get8BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getBooleanArrayFSValue(arrayfeat).size()*sizeof(char);
         iv_isbooleanarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_BYTE_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get8BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getByteArrayFSValue(arrayfeat).size()*sizeof(char);
         iv_isbytearray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_SHORT_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get16BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getShortArrayFSValue(arrayfeat).size()*sizeof(short);
         iv_isshortarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_LONG_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get64BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getLongArrayFSValue(arrayfeat).size()*sizeof(INT64);
         iv_islongarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_DOUBLE_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get64BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getDoubleArrayFSValue(arrayfeat).size()*sizeof(INT64);
         iv_isdoublearray = true;
       } else {
@@ -402,12 +398,33 @@ namespace uima {
                          ErrorInfo::unrecoverable);
     }
 
+    iv_isopen = true;
     return 0;
   }
 
+  // The arrays move when their heap grows, so that pointers to them cannot be kept.
+  const char * LocalSofaDataStream::getSofaData() const {
+    if (!iv_isopen) {
+      return NULL;
+    }
+    if (iv_isstring) {
+      return iv_pstringsofadata;
+    }
+    FeatureStructure arrayFS = iv_psofafs->getLocalFSData();
+    lowlevel::FSHeap const * pHeap = iv_psofafs->getCAS().getHeap();
+    if (iv_isintarray || iv_isfloatarray) {
+      return (const char *) pHeap->getCArrayFromFS(arrayFS.iv_tyFS);
+    } else if (iv_isshortarray) {
+      return (const char *) pHeap->get16BitArray(arrayFS.iv_tyFS);
+    } else if (iv_islongarray || iv_isdoublearray) {
+      return (const char *) pHeap->get64BitArray(arrayFS.iv_tyFS);
+    }
+    return pHeap->get8BitArray(arrayFS.iv_tyFS);
+  }
+
   //getTotalStreamSize
   INT64 LocalSofaDataStream::getTotalStreamSizeInBytes() {
-    if (iv_size==0) {
+    if (!iv_isopen) {
       return SOFASTREAMHANDLER_EOF;
     } else return iv_size;
   }
@@ -421,7 +438,7 @@ namespace uima {
   //read
   int LocalSofaDataStream::read( void * pbuffer, int elementSize, size_t numElements) {
     //check valid sofa data
-    if (iv_psofadata == NULL) {
+    if (!iv_isopen) {
       ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_NOTSET);
       errMsg.addParam(iv_psofafs->getType().getName());
       UIMA_EXC_THROW_NEW(SofaDataStreamException,
@@ -466,23 +483,30 @@ namespace uima {
                          ErrorInfo::unrecoverable);
     }
 
-    INT64 numbytesread=elementSize*numElements;
-    if (numbytesread > howManyBytesAvailable() ) {
-      numbytesread= howManyBytesAvailable();
+    if (elementSize <= 0 || numElements == 0) {
+      return 0;
+    }
+    //only whole elements are read
+    INT64 numread = howManyBytesAvailable() / elementSize;
+    if (numread == 0) {
+      return SOFASTREAMHANDLER_EOF;
+    }
+    if ((size_t) numread > numElements) {
+      numread = (INT64) numElements;
     }
 
     //read bytes
-    memcpy(pbuffer,iv_psofadata+iv_curpos,numbytesread);
+    memcpy(pbuffer, getSofaData()+iv_curpos, numread*elementSize);
 
     //move current read position
-    iv_curpos += numbytesread;
+    iv_curpos += numread*elementSize;
 
-    return numbytesread;
+    return (int) numread;
   }
 
   //seek
   int LocalSofaDataStream::seek(INT64 offset, int origin) {
-    if (iv_psofadata == NULL) {
+    if (!iv_isopen) {
       ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_NOTSET);
       errMsg.addParam(iv_psofafs->getType().getName());
       UIMA_EXC_THROW_NEW(SofaDataStreamException,
@@ -492,15 +516,20 @@ namespace uima {
                          ErrorInfo::unrecoverable);
     }
 
+    INT64 base = 0;
     switch (origin) {
     case SEEK_SET:
-      iv_curpos = offset;
       break ;
     case SEEK_CUR:
-      iv_curpos += offset;
+      base = iv_curpos;
       break ;
     case SEEK_END:
-      iv_curpos = getTotalStreamSizeInBytes() - offset;
+      //here the offset counts backwards from the end
+      if (offset < 0 || offset > iv_size) {
+        return SOFASTREAMHANDLER_EOF;
+      }
+      base = iv_size;
+      offset = -offset;
       break ;
     default:
       ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_SOFADATASTREAM_INVALID_SEEK_ORIGIN);
@@ -511,6 +540,11 @@ namespace uima {
                          UIMA_MSG_ID_EXCON_SOFADATASTREAM,
                          ErrorInfo::unrecoverable);
     }
+    //the position stays where it was when the new one is not in the stream
+    if (offset < -base || offset > iv_size - base) {
+      return SOFASTREAMHANDLER_EOF;
+    }
+    iv_curpos = base + offset;
     return 0;
   }
 
@@ -520,20 +554,21 @@ namespace uima {
       delete[] iv_pstringsofadata;
     iv_pstringsofadata = NULL;
     iv_curpos=0;
-    iv_psofadata = NULL;
+    iv_isopen=false;
     iv_size=0;
     iv_isstring=false;
     iv_isintarray=false;
     iv_isfloatarray=false;
+    iv_isbooleanarray=false;
+    iv_isbytearray=false;
+    iv_isshortarray=false;
+    iv_islongarray=false;
+    iv_isdoublearray=false;
   }
 
   //getDataPointer
   const TySofaDataPointer LocalSofaDataStream::getDataPointer() {
-    TySofaDataPointer dataptr=NULL;
-    if (iv_psofadata != NULL) {
-      dataptr = (TySofaDataPointer) iv_psofadata;
-    }
-    return dataptr;
+    return (TySofaDataPointer) getSofaData();
   }
 
 
diff --git a/src/cas/uima/sofastream.hpp b/src/cas/uima/sofastream.hpp
index a2e7d2c..480d86b 100644
--- a/src/cas/uima/sofastream.hpp
+++ b/src/cas/uima/sofastream.hpp
@@ -208,7 +208,8 @@ namespace uima {
 
   private:
     SofaFS * iv_psofafs;           //the SofaFS
-    const char * iv_psofadata;    //ptr to the sofa data
+    const char * getSofaData() const; //ptr to the sofa data
+    bool iv_isopen;               //is the stream open
     char * iv_pstringsofadata;    //ptr to UTF 8 string
     INT64 iv_curpos;              //cursor position
     INT32 iv_size;                //total size of stream in bytes
@@ -240,6 +241,7 @@ namespace uima {
     const TySofaDataPointer getDataPointer();
 
   private:
+    void releaseHandler();
     SofaFS * iv_psofafs;
     SofaStreamHandler  * iv_pHandler;
     util::DllProcLoaderFile *  iv_pHandlerDll;
-- 
2.43.0


From 3040861c83c6fde1974d63e019d29aa102a54411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:35 +0000
Subject: [PATCH 065/143] fix: sofa data can be set only once; views without a
 sofa have no data; _InitialView is one view; covered text stays inside the
 text

---
 src/cas/cas.cpp      | 136 +++++++++++++++++++++----------------------
 src/cas/uima/cas.hpp |   4 ++
 2 files changed, 72 insertions(+), 68 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 8db2364..c718427 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -211,8 +211,11 @@ namespace uima {
 
   // Constructor used for views
   CAS::CAS(CAS* inCas, SofaFS inSofa):
+      initialSofaCreated(false),
       iv_sofaNum(0),
       iv_sofaCount(0),
+      iv_initialView(NULL),
+      iv_utDocumentType(uima::lowlevel::TypeSystem::INVALID_TYPE),
       iv_cpDocument(NULL),
       iv_uiDocumentLength(0),
       iv_copyOfDocument(NULL),
@@ -302,10 +305,9 @@ namespace uima {
       delete iv_indexRepository;
       iv_indexRepository = NULL;
 		}
-    if (this->iv_cpDocument != NULL) {
-      delete[] this->iv_cpDocument;
-      this->iv_cpDocument = NULL;
-    }
+    delete[] this->iv_copyOfDocument;
+    this->iv_copyOfDocument = NULL;
+    this->iv_cpDocument = NULL;
     //initial call to delete object
     if (this->isbaseCas) {
       this->iv_baseCas->isDeletingViews = true;
@@ -550,7 +552,7 @@ namespace uima {
         // This sofa must have just been created during binary deserialization
         assert(iv_baseCas->iv_sofaCount+1 == sofaNum);
         iv_baseCas->iv_sofaCount = sofaNum;
-        if ( iv_sofaCount+1 > (int) iv_baseCas->iv_sofa2indexMap.size()) {
+        if ( sofaNum+1 > (int) iv_baseCas->iv_sofa2indexMap.size()) {
           iv_baseCas->iv_sofa2indexMap.resize(sofaNum + 1);
           iv_baseCas->iv_sofa2indexMap[sofaNum] = NULL;
         }
@@ -568,7 +570,7 @@ namespace uima {
       // This sofa must have just been created during xcas deserialization
       assert(iv_baseCas->iv_sofaCount+1 == sofaNum);
       iv_baseCas->iv_sofaCount = sofaNum;
-      if ( iv_sofaCount+1 > (int) iv_baseCas->iv_sofa2indexMap.size()) {
+      if ( sofaNum+1 > (int) iv_baseCas->iv_sofa2indexMap.size()) {
         iv_baseCas->iv_sofa2indexMap.resize(sofaNum + 1);
         iv_baseCas->iv_sofa2indexMap[sofaNum] = NULL;
       }
@@ -616,22 +618,17 @@ namespace uima {
   }
 
   CAS* CAS::getView(const icu::UnicodeString & localViewName) {
-    SofaID* sid;
-    bool deleteSofaID = false;
+    SofaID unmappedID;
+    SofaID const * sid = &unmappedID;
     if (0 != iv_baseCas->iv_componentInfo) {
-      sid = const_cast<SofaID*> (&iv_baseCas->iv_componentInfo->mapToSofaID(localViewName));
+      sid = &iv_baseCas->iv_componentInfo->mapToSofaID(localViewName);
     } else {
-      sid = new SofaID();
-      deleteSofaID = true;
-      sid->setSofaId(localViewName);
+      unmappedID.setSofaId(localViewName);
     }
 
     // if this resolves to the Initial View, return view(1)...
     // ... as the Sofa for this view may not exist yet
     if (0==sid->getSofaId().compare(CAS::NAME_DEFAULT_SOFA)) {
-      if (deleteSofaID) {
-        delete sid;
-      }
       return getInitialView();
     }
 
@@ -646,22 +643,17 @@ namespace uima {
                          ErrorInfo::unrecoverable
                         );
     }
-    if (deleteSofaID) {
-      delete sid;
-    }
     return getView(as);
   }
 
   CAS* CAS::createView(icu::UnicodeString const & localViewName) {
     // map the input name
-    SofaID* sid;
-    bool deleteSofaID = false;
+    SofaID unmappedID;
+    SofaID const * sid = &unmappedID;
     if (0 != iv_baseCas->iv_componentInfo) {
-      sid = const_cast<SofaID*> (&iv_baseCas->iv_componentInfo->mapToSofaID(localViewName));
+      sid = &iv_baseCas->iv_componentInfo->mapToSofaID(localViewName);
     } else {
-      sid = new SofaID();
-      sid->setSofaId(localViewName);
-      deleteSofaID = true;
+      unmappedID.setSofaId(localViewName);
     }
     // test if this is the reserved name
     if ( 0 == sid->getSofaId().compare(icu::UnicodeString(CAS::NAME_DEFAULT_SOFA)) ) {
@@ -676,9 +668,6 @@ namespace uima {
     }
 
     SofaFS newSofa = createSofa(sid->getSofaId(), UnicodeStringRef());
-    if (deleteSofaID) {
-      delete sid;
-    }
     return getView(newSofa);
   }
 
@@ -705,17 +694,8 @@ namespace uima {
     if (cpDocument == NULL) {
       assert( uiLength == 0 );
     }
-    if (bCopyToCAS && ( cpDocument != NULL ) ) {
-      copyDocumentString(UnicodeStringRef(cpDocument, uiLength));
-    } else {
-      iv_cpDocument = cpDocument;
-      iv_uiDocumentLength = uiLength;
-    }
-    SofaFS thisSofa = getSofa();
-    if (!thisSofa.isValid()) {
-      thisSofa = createInitialSofa(UnicodeStringRef("text"));
-    }
-    thisSofa.setLocalSofaData(UnicodeStringRef(iv_cpDocument, iv_uiDocumentLength));
+    // the CAS always keeps its own copy
+    setDocumentText(UnicodeStringRef(cpDocument, uiLength));
   }
 
   void CAS::setDocumentText(UnicodeStringRef const text) {
@@ -726,8 +706,7 @@ namespace uima {
     if (!thisSofa.isValid()) {
       thisSofa = createInitialSofa(UnicodeStringRef("text"));
     }
-    copyDocumentString(text);
-    thisSofa.setLocalSofaData(text);
+    thisSofa.setLocalSofaData(text); // copies the text
   }
 
   // internal use only
@@ -739,15 +718,24 @@ namespace uima {
                             getHeap()->getTypeSystem()), text);
   }
 
+  // The Sofa of this view, about to be given data of the mime type
+  SofaFS CAS::getSofaForNewData(icu::UnicodeString const & mime) {
+    SofaFS thisSofa = getSofa();
+    if (!thisSofa.isValid()) {
+      return createInitialSofa(mime);
+    }
+    thisSofa.checkSofaDataNotSet();
+    if (mime.length() > 0) {
+      thisSofa.setSofaMime(mime);
+    }
+    return thisSofa;
+  }
+
   void CAS::setSofaDataString(UnicodeStringRef const text, icu::UnicodeString const & mimetype) {
     if (isbaseCas) {
       invalidBaseCasMethod();
     }
-    SofaFS thisSofa = getSofa();
-    if (!thisSofa.isValid()) {
-      thisSofa = createInitialSofa(mimetype);
-    }
-    setDocumentText(text);
+    getSofaForNewData(mimetype).setLocalSofaData(text);
   }
 
   UnicodeStringRef CAS::getDocumentText()const {
@@ -853,11 +841,7 @@ namespace uima {
     if (isbaseCas) {
       invalidBaseCasMethod();
     }
-    SofaFS thisSofa = getSofa();
-    if (!thisSofa.isValid()) {
-      thisSofa = createInitialSofa(mime);
-    }
-    getSofa().setLocalSofaData(array);
+    getSofaForNewData(mime).setLocalSofaData(array);
   }
 
   FeatureStructure CAS::getSofaDataArray() {
@@ -865,17 +849,15 @@ namespace uima {
       assertWithMsg(false, "no Sofa data in Base CAS!");
       return FeatureStructure();
     }
-    return getSofa().getLocalFSData();
+    SofaFS thisSofa = getSofa();
+    return thisSofa.isValid() ? thisSofa.getLocalFSData() : FeatureStructure();
   }
 
   void CAS::setSofaDataURI(icu::UnicodeString const & uri, icu::UnicodeString const & mime) {
     if (isbaseCas) {
       invalidBaseCasMethod();
     }
-    if (!getSofa().isValid()) {
-      createInitialSofa(mime);
-    }
-    getSofa().setRemoteSofaURI(uri);
+    getSofaForNewData(mime).setRemoteSofaURI(uri);
   }
 
   UnicodeStringRef CAS::getSofaDataURI() {
@@ -883,14 +865,16 @@ namespace uima {
       assertWithMsg(false, "no Sofa data in Base CAS!");
       return UnicodeStringRef();
     }
-    return getSofa().getSofaURI();
+    SofaFS thisSofa = getSofa();
+    return thisSofa.isValid() ? thisSofa.getSofaURI() : UnicodeStringRef();
   }
 
   SofaDataStream * CAS::getSofaDataStream() {
     if (isbaseCas) {
       invalidBaseCasMethod();
     }
-    return getSofa().getSofaDataStream();
+    SofaFS thisSofa = getSofa();
+    return thisSofa.isValid() ? thisSofa.getSofaDataStream() : NULL;
   }
 
 
@@ -948,6 +932,9 @@ namespace uima {
 
   SofaFS CAS::createSofa(UnicodeStringRef const sofaName, UnicodeStringRef const mimeType) {
     assert(EXISTS(iv_heap));
+    if (!isInitialSofaCreated() && 0 == sofaName.compare(NAME_DEFAULT_SOFA)) {
+      return createInitialSofa(mimeType); // this name belongs to the initial view
+    }
     if (iv_baseCas->getSofa(sofaName).isValid()) {
       ErrorMessage errMessage(UIMA_MSG_ID_EXC_SOFA_NAME_ALREADY_EXISTS);
       errMessage.addParam( sofaName );
@@ -1051,10 +1038,10 @@ namespace uima {
       if (pDoc.length() > 0) {
         copyDocumentString(pDoc);
         getDocumentAnnotation(); // create DocumentAnnotation if necessary
+        // re-index the annotation; it is found in the index by its old position
+        iv_indexRepository->remove(iv_tyDocumentAnnotation);
         iv_heap->setIntValue( iv_tyDocumentAnnotation, uima::internal::gs_tyEndPosFeature,
                               (int) iv_uiDocumentLength);
-        // re-index the annotation
-        iv_indexRepository->remove(iv_tyDocumentAnnotation);
         iv_indexRepository->add(iv_tyDocumentAnnotation);
       }
     }
@@ -1216,8 +1203,22 @@ namespace uima {
     return;
   }
 
+  void SofaFS::checkSofaDataNotSet() const {
+    lowlevel::TypeSystem const & ts = iv_cas->getHeap()->getTypeSystem();
+    if ( !isUntouchedFSValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaStringFeature, ts))
+         || !isUntouchedFSValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaArrayFeature, ts))
+         || !isUntouchedFSValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaURIFeature, ts)) ) {
+      UIMA_EXC_THROW_NEW(CASException,
+                         UIMA_ERR_DUPLICATE_EXISTS,
+                         ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "The Sofa data has been set and cannot be changed."),
+                         UIMA_MSG_ID_NO_MESSAGE_AVAILABLE,
+                         ErrorInfo::recoverable
+                        );
+    }
+  }
+
   void SofaFS::setLocalSofaData(FeatureStructure aFS) {
-    //TODO NEED TO FAIL THIS IF DATA, STRING, or URI ALREADY SET !!!
+    checkSofaDataNotSet();
     lowlevel::TyFS tySofa = internal::FSPromoter::demoteFS(*this);
     iv_cas->getHeap()->setFSValue(tySofa, internal::gs_tySofaArrayFeature,
                                   internal::FSPromoter::demoteFS(aFS));
@@ -1225,7 +1226,7 @@ namespace uima {
   }
 
   void SofaFS::setLocalSofaData(UnicodeStringRef const aString) {
-    //TODO NEED TO FAIL THIS IF DATA, STRING, or URI ALREADY SET !!!
+    checkSofaDataNotSet();
     this->setStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaStringFeature,
                          iv_cas->getHeap()->getTypeSystem()), aString);
     int sofaNum = this->getIntValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaNumFeature,
@@ -1240,7 +1241,7 @@ namespace uima {
   }
 
   void SofaFS::setRemoteSofaURI(icu::UnicodeString const & aString) {
-    //TODO NEED TO FAIL THIS IF DATA, STRING, or URI ALREADY SET !!!
+    checkSofaDataNotSet();
     this->setStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaURIFeature, iv_cas->getHeap()->getTypeSystem()), aString);
     return;
   }
@@ -1335,12 +1336,11 @@ namespace uima {
     if (isValid()) {
       AnnotationFS* grr = const_cast<AnnotationFS*>(this);
       CAS * myCas = grr->getView();
-      if (myCas->iv_uiDocumentLength > 0) {
-        assert( getEndPosition() <= myCas->iv_uiDocumentLength );
-        size_t uiBegin = getBeginPosition();
-        UChar const * puc = myCas->iv_cpDocument;
-        puc += uiBegin;
-        return UnicodeStringRef( puc, getEndPosition()-uiBegin );
+      size_t uiBegin = getBeginPosition();
+      size_t uiEnd = getEndPosition();
+      if (myCas->iv_uiDocumentLength > 0
+          && uiBegin <= uiEnd && uiEnd <= myCas->iv_uiDocumentLength) {
+        return UnicodeStringRef( myCas->iv_cpDocument + uiBegin, uiEnd - uiBegin );
       }
     }
 
diff --git a/src/cas/uima/cas.hpp b/src/cas/uima/cas.hpp
index d2f5fbe..b23de19 100644
--- a/src/cas/uima/cas.hpp
+++ b/src/cas/uima/cas.hpp
@@ -187,6 +187,7 @@ namespace uima {
     SofaFS getSofa(int sofaNum);
     SofaFS getSofa(char* sofaName);
     SofaFS getSofa(UnicodeStringRef sofaName);
+    SofaFS getSofaForNewData(icu::UnicodeString const & mime);
     uima::lowlevel::IndexRepository * getIndexRepositoryForSofa(SofaFS sofa);
     void bumpSofaCount();	
     void invalidBaseCasMethod();
@@ -1023,6 +1024,9 @@ namespace uima {
      */
     void setSofaMime(icu::UnicodeString const & aString);
 
+    // The data of a Sofa can be set only once: throws if it has been set.
+    void checkSofaDataNotSet() const;
+
   public:
     /**
      * Default constructor. Creates an invalid SofaFS.
-- 
2.43.0


From 5aaa8213e7756a248bb54903f06a68a745ed8143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:20 +0000
Subject: [PATCH 066/143] fix: string references compare, search and slice like
 the strings they refer to

---
 src/framework/uima/unistrref.hpp | 20 ++++++++++++++++----
 src/framework/unistrref.cpp      | 25 +++++++++++++++----------
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/framework/uima/unistrref.hpp b/src/framework/uima/unistrref.hpp
index dcb6bd6..b94ef58 100644
--- a/src/framework/uima/unistrref.hpp
+++ b/src/framework/uima/unistrref.hpp
@@ -1554,7 +1554,7 @@ namespace uima {
     if (iv_uiLength != crclRHS.iv_uiLength) {
       return false;
     }
-    return u_strncmp(iv_pUChars, crclRHS.iv_pUChars, iv_uiLength) == 0;
+    return iv_uiLength == 0 || u_memcmp(iv_pUChars, crclRHS.iv_pUChars, iv_uiLength) == 0;
   }
 
   inline int
@@ -1576,10 +1576,14 @@ namespace uima {
   UnicodeStringRef::pinIndices(int32_t& start,
                                int32_t& length) const {
     // pin indices
-    if (start > iv_uiLength) {
+    if (start < 0) {
+      start = 0;
+    } else if (start > iv_uiLength) {
       start = iv_uiLength;
     }
-    if (length > (iv_uiLength - start)) {
+    if (length < 0) {
+      length = 0;
+    } else if (length > (iv_uiLength - start)) {
       length = (iv_uiLength - start);
     }
   }
@@ -1670,6 +1674,7 @@ namespace uima {
                               const UnicodeStringRef& srcText,
                               int32_t srcStart,
                               int32_t srcLength) const {
+    srcText.pinIndices(srcStart, srcLength);
     const UChar *srcChars = srcText.getBuffer();
     return doCompare(start, length, srcChars, srcStart, srcLength);
   }
@@ -1733,6 +1738,7 @@ namespace uima {
       const UnicodeStringRef& srcText,
       int32_t srcStart,
       int32_t srcLength) const {
+    srcText.pinIndices(srcStart, srcLength);
     const UChar *srcChars = srcText.getBuffer();
     return doCompareCodePointOrder(start, length, srcChars, srcStart, srcLength);
   }
@@ -1802,6 +1808,7 @@ namespace uima {
                                   int32_t srcStart,
                                   int32_t srcLength,
                                   uint32_t options) const {
+    srcText.pinIndices(srcStart, srcLength);
     const UChar *srcChars = srcText.getBuffer();
     return doCaseCompare(start, length, srcChars, srcStart, srcLength, options);
   }
@@ -1830,6 +1837,7 @@ namespace uima {
                             int32_t srcLength,
                             int32_t start,
                             int32_t length) const {
+    srcText.pinIndices(srcStart, srcLength);
     return indexOf(srcText.getBuffer(), srcStart, srcLength, start, length);
   }
 
@@ -1929,6 +1937,7 @@ namespace uima {
                                 int32_t srcLength,
                                 int32_t start,
                                 int32_t length) const {
+    srcText.pinIndices(srcStart, srcLength);
     return lastIndexOf(srcText.getBuffer(), srcStart, srcLength, start, length);
   }
 
@@ -2039,6 +2048,7 @@ namespace uima {
   UnicodeStringRef::endsWith(const UnicodeStringRef& srcText,
                              int32_t srcStart,
                              int32_t srcLength) const {
+    srcText.pinIndices(srcStart, srcLength);
     return doCompare(iv_uiLength - srcLength, srcLength,
                      srcText, srcStart, srcLength) == 0;
   }
@@ -2067,7 +2077,7 @@ namespace uima {
                             UChar *dst,
                             int32_t dstStart) const {
     pinIndices(start, length);
-    memcpy(dst+dstStart, getBuffer()+start, length*sizeof(UChar));
+    u_memcpy(dst+dstStart, getBuffer()+start, length);
   }
 
 
@@ -2075,6 +2085,7 @@ namespace uima {
   UnicodeStringRef::extract(int32_t start,
                             int32_t length,
                             icu::UnicodeString& target) const {
+    pinIndices(start, length);
     target.replace(0, target.length(), getBuffer(), start, length);
   }
 // Replaces all of target by substring of src
@@ -2178,6 +2189,7 @@ namespace uima {
                                   int32_t srcStart,
                                   int32_t srcLength,
                                   uint32_t options) const {
+    pinIndices(start, length);
     icu::UnicodeString s(iv_pUChars+start, (int32_t)length);
     return s.caseCompare(srcChars + srcStart, (int32_t)srcLength, options);
   }
diff --git a/src/framework/unistrref.cpp b/src/framework/unistrref.cpp
index 32598ae..6dbe248 100644
--- a/src/framework/unistrref.cpp
+++ b/src/framework/unistrref.cpp
@@ -50,14 +50,14 @@ namespace uima {
                                const UChar *srcChars,
                                int32_t srcStart,
                                int32_t srcLength) const {
-    // compare illegal string values
-    if (srcChars==0) {
-      return 1;
-    }
-
     // pin indices to legal values
     pinIndices(start, length);
 
+    // no characters: the same as an empty string
+    if (srcChars==0) {
+      return length > 0 ? 1 : 0;
+    }
+
     // get the correct pointer
     const UChar *chars = getBuffer();
 
@@ -119,14 +119,18 @@ namespace uima {
       const UChar *srcChars,
       int32_t srcStart,
       int32_t srcLength) const {
-    if (srcChars==NULL) {
-      return 1;
-    }
-
     // pin indices to legal values
     pinIndices(start, length);
 
-    int32_t diff = u_strncmpCodePointOrder(getBuffer() + start, srcChars + srcStart, min(length, srcLength));
+    // no characters: the same as an empty string
+    if (srcChars==NULL) {
+      return length > 0 ? 1 : 0;
+    }
+    if (length == 0) {
+      return srcLength > 0 ? -1 : 0;
+    }
+
+    int32_t diff = u_strCompare(getBuffer() + start, length, srcChars + srcStart, srcLength, true);
     /* translate the 32-bit result into an 8-bit one */
     if (diff!=0) {
       return (int8_t)(diff >> 15 | 1);
@@ -315,6 +319,7 @@ namespace uima {
       return 0;
     }
 
+    pinIndices(start, startLength);
     const UChar* src = getBuffer() + start;
     int len = ucnv_fromUChars(cnv, buf, STACK_BUF_SIZE, src, startLength, &err);
     if ( err == U_BUFFER_OVERFLOW_ERROR || err == U_STRING_NOT_TERMINATED_WARNING ) {
-- 
2.43.0


From 3214cca4ff99721920515df9f98ac5c944bae3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:20 +0000
Subject: [PATCH 067/143] fix: UTF-8 conversion of text with unpaired
 surrogates

---
 src/framework/unistrref.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/framework/unistrref.cpp b/src/framework/unistrref.cpp
index 6dbe248..71b84c7 100644
--- a/src/framework/unistrref.cpp
+++ b/src/framework/unistrref.cpp
@@ -352,11 +352,12 @@ namespace uima {
     int32_t len;
 
     UErrorCode err = U_ZERO_ERROR;
-    u_strToUTF8(buf, STACK_BUF_SIZE, &len, getBuffer(), length(), &err);
+    // an unpaired surrogate becomes the replacement character
+    u_strToUTF8WithSub(buf, STACK_BUF_SIZE, &len, getBuffer(), length(), 0xfffd, NULL, &err);
     if ( err == U_BUFFER_OVERFLOW_ERROR || err == U_STRING_NOT_TERMINATED_WARNING ) {
       buf = heapBuf = new char [len+1];
       err = U_ZERO_ERROR;
-      u_strToUTF8(buf, len+1, &len, getBuffer(), length(), &err);
+      u_strToUTF8WithSub(buf, len+1, &len, getBuffer(), length(), 0xfffd, NULL, &err);
     }
 
     target.assign(buf, len);                   // Copy the result to the string
-- 
2.43.0


From 1a55a7bc2de4302eec829e0c8c0a6dc641074dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:20 +0000
Subject: [PATCH 068/143] fix: define UnicodeStringRef::countChar32

---
 src/framework/unistrref.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/framework/unistrref.cpp b/src/framework/unistrref.cpp
index 71b84c7..38eb131 100644
--- a/src/framework/unistrref.cpp
+++ b/src/framework/unistrref.cpp
@@ -220,6 +220,12 @@ namespace uima {
   }
 
 
+  int32_t UnicodeStringRef::countChar32(int32_t start, int32_t length) const {
+    pinIndices(start, length);
+    return length > 0 ? u_countChar32(getBuffer() + start, length) : 0;
+  }
+
+
   int32_t
   UnicodeStringRef::doIndexOf(UChar c,
                               int32_t start,
-- 
2.43.0


From b35d88676092bb9546d3daa3dad51613d111b66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:20 +0000
Subject: [PATCH 069/143] fix: convertBytes treats the target size as bytes

---
 src/framework/cp2ucnvrt.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/framework/cp2ucnvrt.cpp b/src/framework/cp2ucnvrt.cpp
index ac90200..3754072 100644
--- a/src/framework/cp2ucnvrt.cpp
+++ b/src/framework/cp2ucnvrt.cpp
@@ -96,7 +96,8 @@ namespace uima {
 
   {
     size_t                     uiTargetSize;
-    uiTargetSize = convertToUnicode(pclTarget, uiTargetMaxSize, cpacSource, uiSourceSize);
+    // the size of the target is in bytes
+    uiTargetSize = convertToUnicode(pclTarget, uiTargetMaxSize / sizeof(UChar), cpacSource, uiSourceSize);
     return(uiSourceSize);
   }
 
-- 
2.43.0


From dcccb4dfdb229a15e6535623c8d1bfba32aebeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:38 +0000
Subject: [PATCH 070/143] fix: the XML writers follow long chains of references
 without recursion

---
 src/cas/uima/xmiwriter.hpp |  4 ++++
 src/cas/uima/xmlwriter.hpp |  4 ++++
 src/cas/xmiwriter.cpp      | 19 +++++++++++++++++--
 src/cas/xmlwriter.cpp      | 16 ++++++++++++++++
 4 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/cas/uima/xmiwriter.hpp b/src/cas/uima/xmiwriter.hpp
index 8e3966e..86c44ab 100644
--- a/src/cas/uima/xmiwriter.hpp
+++ b/src/cas/uima/xmiwriter.hpp
@@ -110,6 +110,10 @@ namespace uima {
     void writeFeatureValue(std::ostream & os, FeatureStructure const & fs, Feature const & f);
     void writeFSFlat(std::ostream & os, FeatureStructure const & fs, std::vector<int>* indexInfo);
     void findReferencedFSs(FeatureStructure const & fs, bool check=true);
+    void enqueueReferencedFSs(FeatureStructure const & fs);
+    // FSs whose references have not been followed yet
+    std::vector<FeatureStructure> iv_pendingFSs;
+    bool iv_followingReferences;
     bool isReferenceType(Type const & t) const;
     bool enqueueIndexed(FeatureStructure const &fs, int sofa);
     bool enqueueUnindexed(FeatureStructure const &fs);
diff --git a/src/cas/uima/xmlwriter.hpp b/src/cas/uima/xmlwriter.hpp
index 761ba6c..f817d58 100644
--- a/src/cas/uima/xmlwriter.hpp
+++ b/src/cas/uima/xmlwriter.hpp
@@ -151,6 +151,10 @@ namespace uima {
     void writeFeatureValue(std::ostream & os, FeatureStructure const & fs, Feature const & f);
     void writeFSFlat(std::ostream & os, FeatureStructure const & fs, std::vector<int>* indexInfo);
     void findReferencedFSs(FeatureStructure const & fs, bool check=true);
+    void enqueueReferencedFSs(FeatureStructure const & fs);
+    // FSs whose references have not been followed yet
+    std::vector<FeatureStructure> iv_pendingFSs;
+    bool iv_followingReferences;
     bool isReferenceType(Type const & t) const;
     bool enqueueIndexed(FeatureStructure const &fs, int sofa);
     bool enqueueUnindexed(FeatureStructure const &fs);
diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 0fdd812..d29b556 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -67,7 +67,7 @@ namespace uima {
   // XmiWriter
 
   XmiWriter::XmiWriter(CAS const & cas, bool addDocument)
-      : XMLWriterABase(cas, addDocument),  sharedData(0),
+      : XMLWriterABase(cas, addDocument), iv_followingReferences(false), sharedData(0),
       iv_stringType( cas.getTypeSystem().getType(uima::CAS::TYPE_NAME_STRING) ),
       iv_integerType( cas.getTypeSystem().getType(uima::CAS::TYPE_NAME_INTEGER) ),
       iv_floatType( cas.getTypeSystem().getType(uima::CAS::TYPE_NAME_FLOAT) ),
@@ -107,7 +107,7 @@ namespace uima {
   }
 
   XmiWriter::XmiWriter(CAS const & cas, bool addDocument, XmiSerializationSharedData * serdata)
-      : XMLWriterABase(cas, addDocument),  sharedData(serdata),
+      : XMLWriterABase(cas, addDocument), iv_followingReferences(false), sharedData(serdata),
       iv_stringType( cas.getTypeSystem().getType(uima::CAS::TYPE_NAME_STRING) ),
       iv_integerType( cas.getTypeSystem().getType(uima::CAS::TYPE_NAME_INTEGER) ),
       iv_floatType( cas.getTypeSystem().getType(uima::CAS::TYPE_NAME_FLOAT) ),
@@ -769,6 +769,21 @@ void XmiWriter::findReferencedFSs(FeatureStructure const & fs, bool check) {
         return;
       }
     }
+    // chains of references may be very long: no recursion
+    iv_pendingFSs.push_back(fs);
+    if (iv_followingReferences) {
+      return;
+    }
+    iv_followingReferences = true;
+    while (! iv_pendingFSs.empty()) {
+      FeatureStructure pending = iv_pendingFSs.back();
+      iv_pendingFSs.pop_back();
+      enqueueReferencedFSs(pending);
+    }
+    iv_followingReferences = false;
+}
+
+void XmiWriter::enqueueReferencedFSs(FeatureStructure const & fs) {
     Type t = fs.getType();
     //cout << "findReferencedFSs() " << t.getName() << endl;
     int tcode = internal::FSPromoter::demoteType(t);
diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index d530609..68e253d 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -408,6 +408,7 @@ namespace uima {
 
   XCASWriter::XCASWriter(CAS const & cas, bool addDocument)
       : XMLWriterABase(cas, addDocument),
+      iv_followingReferences(false),
       iv_stringType( cas.getTypeSystem().getType(uima::CAS::TYPE_NAME_STRING) ),
       iv_integerType( cas.getTypeSystem().getType(uima::CAS::TYPE_NAME_INTEGER) ),
       iv_floatType( cas.getTypeSystem().getType(uima::CAS::TYPE_NAME_FLOAT) ),
@@ -657,6 +658,21 @@ namespace uima {
         return;
       }
     }
+    // chains of references may be very long: no recursion
+    iv_pendingFSs.push_back(fs);
+    if (iv_followingReferences) {
+      return;
+    }
+    iv_followingReferences = true;
+    while (! iv_pendingFSs.empty()) {
+      FeatureStructure pending = iv_pendingFSs.back();
+      iv_pendingFSs.pop_back();
+      enqueueReferencedFSs(pending);
+    }
+    iv_followingReferences = false;
+  }
+
+  void XCASWriter::enqueueReferencedFSs(FeatureStructure const & fs) {
     Type t = fs.getType();
     assert( t.isValid() );
     size_t i;
-- 
2.43.0


From ec14df601288417c0a82899d3b29c99ebfa1e10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:12 +0000
Subject: [PATCH 071/143] fix: refuse to change a type system that is already
 committed

---
 src/cas/lowlevel_typesystem.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/cas/lowlevel_typesystem.cpp b/src/cas/lowlevel_typesystem.cpp
index ea53e93..7ddefe6 100644
--- a/src/cas/lowlevel_typesystem.cpp
+++ b/src/cas/lowlevel_typesystem.cpp
@@ -184,7 +184,6 @@ namespace uima {
 
 
     TyFSType TypeSystem::createType(TyFSType tyParent, icu::UnicodeString const & crusName, icu::UnicodeString const & crusCreatorID) {
-      assert( !iv_bIsCommitted);
       assert( (tyParent > 0) && (tyParent < iv_vecTree.size()) );
 
       if (iv_bBuiltinTypesCreated && ! isAllowedToAddSubTypes(tyParent)) {
@@ -201,6 +200,15 @@ namespace uima {
     }
 
     TyFSType TypeSystem::createTypeNoChecks(TyFSType tyParent, icu::UnicodeString const & crusName, icu::UnicodeString const & crusCreatorID) {
+      if (iv_bIsCommitted) {
+        ErrorMessage errMessage(UIMA_MSG_ID_EXCON_CREATING_TYPE, crusName);
+        errMessage.addParam(getTypeName(tyParent) );
+        UIMA_EXC_THROW_NEW(TypeSystemAlreadyCommittedException,
+                           UIMA_ERR_TYPESYSTEM_ALREADY_COMMITTED,
+                           UIMA_MSG_ID_EXC_TYPESYSTEM_ALREADY_COMMITTED,
+                           errMessage,
+                           ErrorInfo::recoverable);
+      }
       assert( debugIsTreeConsistent() );
 
       if ( find(iv_vecTypeNames.begin(), iv_vecTypeNames.end(), crusName) != iv_vecTypeNames.end() ) {
@@ -236,7 +244,15 @@ namespace uima {
 
     TyFSFeature TypeSystem::createFeature(TyFSType tyIntro, TyFSType tyRange, bool multiRef, icu::UnicodeString const & crusName, icu::UnicodeString const & crusCreatorID) {
       UIMA_TPRINT("Creating feature " << crusName);
-      assert( !iv_bIsCommitted);
+      if (iv_bIsCommitted) {
+        ErrorMessage errMessage(UIMA_MSG_ID_EXCON_CREATING_FEATURE, crusName);
+        errMessage.addParam(getTypeName(tyIntro) );
+        UIMA_EXC_THROW_NEW(TypeSystemAlreadyCommittedException,
+                           UIMA_ERR_TYPESYSTEM_ALREADY_COMMITTED,
+                           UIMA_MSG_ID_EXC_TYPESYSTEM_ALREADY_COMMITTED,
+                           errMessage,
+                           ErrorInfo::recoverable);
+      }
       assert( (tyIntro > 0) && (tyIntro < iv_vecTree.size()) );
       assert( (tyRange > 0) && (tyRange < iv_vecTree.size()) );
       assert( isValidType(tyIntro) );
@@ -430,6 +446,13 @@ namespace uima {
     bool TypeSystem::addTypePriority(TyFSType t1, TyFSType t2) {
       assert( isValidType(t1) );
       assert( isValidType(t2) );
+      if (iv_bIsCommitted) {
+        UIMA_EXC_THROW_NEW(TypeSystemAlreadyCommittedException,
+                           UIMA_ERR_TYPESYSTEM_ALREADY_COMMITTED,
+                           UIMA_MSG_ID_EXC_TYPESYSTEM_ALREADY_COMMITTED,
+                           ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "adding a type priority"),
+                           ErrorInfo::recoverable);
+      }
       iv_customTypePrioritySet = true;
       // copy type priority pairs
       vector< pair<TyFSType, TyFSType> > typePriorities = iv_typePriorityList;
-- 
2.43.0


From 96bc32164bd933cc0d9735d6e71dd9339730caef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:24 +0000
Subject: [PATCH 072/143] fix: record the creator of a feature instead of its
 name

---
 src/cas/lowlevel_typesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_typesystem.cpp b/src/cas/lowlevel_typesystem.cpp
index 7ddefe6..ad44824 100644
--- a/src/cas/lowlevel_typesystem.cpp
+++ b/src/cas/lowlevel_typesystem.cpp
@@ -289,7 +289,7 @@ namespace uima {
       iv_vecRangeTypes.push_back(tyRange);
       iv_vecMultiRefs.push_back(multiRef);
       iv_vecIntroducedFeatures[tyIntro].push_back(newFeature);
-      iv_vecFeatureCreatorIDs.push_back(crusName);
+      iv_vecFeatureCreatorIDs.push_back(crusCreatorID);
 
       assert( debugIsTreeConsistent() );
       return newFeature;
-- 
2.43.0


From c6eb6e649e17138939863b6fc9025a0464c35ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 073/143] fix: Type::isStringSubType must check for an invalid
 type

---
 src/cas/typesystem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cas/typesystem.cpp b/src/cas/typesystem.cpp
index e4e0f63..405a8c6 100644
--- a/src/cas/typesystem.cpp
+++ b/src/cas/typesystem.cpp
@@ -248,6 +248,7 @@ namespace uima {
   }
 
   bool Type::isStringSubType() const {
+    checkValidity();
     return iv_typeSystem->isStringSubType(iv_tyType);
   }
 
-- 
2.43.0


From e0cf179d160ca515c6040df9fe047b3fb2bd5168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:32 +0000
Subject: [PATCH 074/143] fix: the newer primitive and array types and string
 subtypes are final too

---
 src/cas/uima/lowlevel_typesystem.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/cas/uima/lowlevel_typesystem.hpp b/src/cas/uima/lowlevel_typesystem.hpp
index 2e30dbf..cb0826f 100644
--- a/src/cas/uima/lowlevel_typesystem.hpp
+++ b/src/cas/uima/lowlevel_typesystem.hpp
@@ -172,7 +172,12 @@ namespace uima {
         assert( isValidType(tyType) );
         return ( tyType == uima::internal::gs_tyIntegerType )
                || ( tyType == uima::internal::gs_tyFloatType )
-               || ( tyType == uima::internal::gs_tyStringType );
+               || ( tyType == uima::internal::gs_tyStringType )
+               || ( tyType == uima::internal::gs_tyBooleanType )
+               || ( tyType == uima::internal::gs_tyByteType )
+               || ( tyType == uima::internal::gs_tyShortType )
+               || ( tyType == uima::internal::gs_tyLongType )
+               || ( tyType == uima::internal::gs_tyDoubleType );
       }
 
       void createPredefinedCASTypes();
@@ -297,13 +302,19 @@ namespace uima {
        */
       bool isAllowedToAddSubTypes(TyFSType tyType) const {
         assert( isValidType(tyType) );
-        // Integer, Float, String, ArrayBase, FSArray, IntArray, FloatArray, StringArray
+        // primitive types, string subtypes, ArrayBase and all array types
         return (!isBuiltinType(tyType))
+               && (! isStringSubType(tyType))
                && (tyType != uima::internal::gs_tyArrayBaseType)
                && (tyType != uima::internal::gs_tyFSArrayType)
                && (tyType != uima::internal::gs_tyIntArrayType)
                && (tyType != uima::internal::gs_tyFloatArrayType)
-               && (tyType != uima::internal::gs_tyStringArrayType);
+               && (tyType != uima::internal::gs_tyStringArrayType)
+               && (tyType != uima::internal::gs_tyBooleanArrayType)
+               && (tyType != uima::internal::gs_tyByteArrayType)
+               && (tyType != uima::internal::gs_tyShortArrayType)
+               && (tyType != uima::internal::gs_tyLongArrayType)
+               && (tyType != uima::internal::gs_tyDoubleArrayType);
       }
 
       /**
-- 
2.43.0


From 0e332bb2b3b8fae828908b5df062bed1801de26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:49 +0000
Subject: [PATCH 075/143] fix: refuse supertype cycles in type system
 descriptions instead of recursing forever

---
 src/framework/casdefinition.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index 2a71cf0..1e771fb 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -34,6 +34,8 @@
 /* ----------------------------------------------------------------------- */
 #include "uima/pragmas.hpp"
 
+#include <set>
+
 #include "xercesc/util/PlatformUtils.hpp"
 #include "xercesc/parsers/XercesDOMParser.hpp"
 #include "xercesc/parsers/SAXParser.hpp"
@@ -109,14 +111,24 @@ namespace uima {
     uima::lowlevel::TyFSType mergeType(uima::lowlevel::TypeSystem & rTypeSystem,
                                        icu::UnicodeString const & crTypeToBeCreated,
                                        TypeSystemDescription const & crTSDesc,
-                                       icu::UnicodeString const & crCreatorID) {
+                                       icu::UnicodeString const & crCreatorID,
+                                       set<icu::UnicodeString> & rTypesBeingMerged) {
       uima::lowlevel::TyFSType typeToBeCreated = rTypeSystem.getTypeByName(crTypeToBeCreated);
       if (crTSDesc.hasTypeDescription(crTypeToBeCreated)) {
         TypeDescription const * cpTypeDesc = crTSDesc.getTypeDescription(crTypeToBeCreated);
         icu::UnicodeString const & crSuperTypeName = cpTypeDesc->getSuperTypeName();
 
+        if (! rTypesBeingMerged.insert(crTypeToBeCreated).second) {
+          // the type is (indirectly) its own supertype
+          UIMA_EXC_THROW_NEW(IncompatibleParentTypesException,
+                             UIMA_ERR_INCOMPATIBLE_PARENT_TYPES,
+                             ErrorMessage(UIMA_MSG_ID_EXC_WRONG_PARENT_TYPE, crTypeToBeCreated),
+                             ErrorMessage(UIMA_MSG_ID_EXCON_CREATING_TYPESYSTEM_FROM_CONFIG),
+                             ErrorInfo::recoverable);
+        }
         // first merge the parent
-        uima::lowlevel::TyFSType parent = mergeType(rTypeSystem, crSuperTypeName, crTSDesc, crCreatorID);
+        uima::lowlevel::TyFSType parent = mergeType(rTypeSystem, crSuperTypeName, crTSDesc, crCreatorID, rTypesBeingMerged);
+        rTypesBeingMerged.erase(crTypeToBeCreated);
 
         // if string sub type
         if (parent == uima::internal::gs_tyStringType) {
@@ -382,7 +394,8 @@ namespace uima {
       for (cit = crTypeDescVector.begin(); cit != crTypeDescVector.end(); ++cit) {
         TypeDescription const * pTypeDesc = *cit;
         icu::UnicodeString const & crTypeName = pTypeDesc->getName();
-        mergeType( rTypeSystem, crTypeName, crTSDesc, crCreatorID );
+        set<icu::UnicodeString> typesBeingMerged;
+        mergeType( rTypeSystem, crTypeName, crTSDesc, crCreatorID, typesBeingMerged );
       }
 
       // create features
-- 
2.43.0


From 705470b0a008dad54056594f5c8ccb6566e524de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:01 +0000
Subject: [PATCH 076/143] fix: check the supertype of an existing type
 redeclared below uima.cas.String

---
 src/framework/casdefinition.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index 1e771fb..15fe9a2 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -130,6 +130,15 @@ namespace uima {
         uima::lowlevel::TyFSType parent = mergeType(rTypeSystem, crSuperTypeName, crTSDesc, crCreatorID, rTypesBeingMerged);
         rTypesBeingMerged.erase(crTypeToBeCreated);
 
+        if ( (typeToBeCreated != uima::lowlevel::TypeSystem::INVALID_TYPE)
+             && (parent != rTypeSystem.getParentType(typeToBeCreated)) ) {
+          UIMA_EXC_THROW_NEW(IncompatibleParentTypesException,
+                             UIMA_ERR_INCOMPATIBLE_PARENT_TYPES,
+                             ErrorMessage(UIMA_MSG_ID_EXC_WRONG_PARENT_TYPE, crTypeToBeCreated),
+                             ErrorMessage(UIMA_MSG_ID_EXCON_CREATING_TYPESYSTEM_FROM_CONFIG),
+                             ErrorInfo::recoverable);
+        }
+
         // if string sub type
         if (parent == uima::internal::gs_tyStringType) {
           TypeDescription::TyVecpAllowedValues const & crAllowedValues = cpTypeDesc->getAllowedValues();
@@ -182,15 +191,6 @@ namespace uima {
           assert(parent != uima::lowlevel::TypeSystem::INVALID_TYPE);
           if (typeToBeCreated == uima::lowlevel::TypeSystem::INVALID_TYPE) {
             return rTypeSystem.createType(parent, crTypeToBeCreated, crCreatorID);
-          } else {
-            if (parent != rTypeSystem.getParentType(typeToBeCreated)) {
-              UIMA_EXC_THROW_NEW(IncompatibleParentTypesException,
-                                 UIMA_ERR_INCOMPATIBLE_PARENT_TYPES,
-                                 ErrorMessage(UIMA_MSG_ID_EXC_WRONG_PARENT_TYPE, crTypeToBeCreated),
-                                 ErrorMessage(UIMA_MSG_ID_EXCON_CREATING_TYPESYSTEM_FROM_CONFIG),
-                                 ErrorInfo::recoverable);
-              return 0;
-            }
           }
         }
         return typeToBeCreated;
-- 
2.43.0


From 583e6817a464270f74b7d1ac46945ac24ea31c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:14 +0000
Subject: [PATCH 077/143] fix: compare the allowed values of a redeclared
 string subtype correctly

---
 src/framework/casdefinition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index 15fe9a2..eab24d7 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -165,7 +165,7 @@ namespace uima {
                 // check that string occurs in the allowed values
                 bool bContainsString = false;
                 for (j=0; j<uiStringNum; ++j) {
-                  if (crString != allowedStringValues[j]) {
+                  if (crString == allowedStringValues[j]) {
                     bContainsString = true;
                     break;
                   }
-- 
2.43.0


From 09bd415dd90dff66a46941a25874532b1d03c11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:42 +0000
Subject: [PATCH 078/143] fix: keep the UTF-8 text of a type system buffer
 alive while it is parsed

---
 src/framework/engine.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/framework/engine.cpp b/src/framework/engine.cpp
index 63b7672..474ec45 100644
--- a/src/framework/engine.cpp
+++ b/src/framework/engine.cpp
@@ -485,11 +485,12 @@ namespace uima {
       size_t uiLength,
       ErrorInfo& rErrorInfo) {
     UnicodeStringRef usRef(cpBuffer, uiLength);
+    std::string utf8Buffer(usRef.asUTF8());
     XMLParser builder;
     AnalysisEngineMetaData * pAe = new AnalysisEngineMetaData();
 	TypeSystemDescription * tsDesc = new TypeSystemDescription();
-    MemBufInputSource memIS((XMLByte const *)usRef.asUTF8().c_str(),
-		                    usRef.asUTF8().length(),
+    MemBufInputSource memIS((XMLByte const *)utf8Buffer.c_str(),
+		                    utf8Buffer.length(),
 							"sysID");
 	builder.parseTypeSystemDescription(*tsDesc,memIS);
     pAe->setTypeSystemDescription(tsDesc);
@@ -574,10 +575,11 @@ namespace uima {
   //create TypeSystemDescription object from xml spec in buffer
   TypeSystemDescription * Framework::createTypeSystemDescription(UChar const * cpBuffer, size_t uiLength) {
     UnicodeStringRef usRef(cpBuffer, uiLength);
+    std::string utf8Buffer(usRef.asUTF8());
     XMLParser builder;
     TypeSystemDescription * tsDesc = new TypeSystemDescription();
-    MemBufInputSource memIS((XMLByte const *) usRef.asUTF8().c_str(), 
-		                     usRef.asUTF8().length(), "sysID");
+    MemBufInputSource memIS((XMLByte const *) utf8Buffer.c_str(), 
+		                     utf8Buffer.length(), "sysID");
 	builder.parseTypeSystemDescription(*tsDesc,memIS);
     return tsDesc;
   }
-- 
2.43.0


From 0addeabd72a94dd3bec6549132eac55aee36dbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:55 +0000
Subject: [PATCH 079/143] fix: convert the file name in
 createTypeSystemDescription instead of casting it

---
 src/framework/engine.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/framework/engine.cpp b/src/framework/engine.cpp
index 474ec45..2a12982 100644
--- a/src/framework/engine.cpp
+++ b/src/framework/engine.cpp
@@ -587,7 +587,8 @@ namespace uima {
   //read in xml from a file and create a TypeSystemDescription object
   TypeSystemDescription * Framework::createTypeSystemDescription(char const * crFileName) {
     XMLParser builder;
-	LocalFileInputSource fileIS((XMLCh const *)crFileName);
+	icu::UnicodeString ufn(crFileName);
+	LocalFileInputSource fileIS((XMLCh const *) ufn.getTerminatedBuffer());
 	TypeSystemDescription * tsDesc = new TypeSystemDescription();
     builder.parseTypeSystemDescription(*tsDesc,fileIS);
 	return tsDesc;
-- 
2.43.0


From c3a75122029a12093225161b4f89e4913d2a5756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:46 +0000
Subject: [PATCH 080/143] fix: write the multiple references flag of features
 in XMLTypeSystemWriter

---
 src/cas/xmltypesystemwriter.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cas/xmltypesystemwriter.cpp b/src/cas/xmltypesystemwriter.cpp
index 02c3a53..3da114a 100644
--- a/src/cas/xmltypesystemwriter.cpp
+++ b/src/cas/xmltypesystemwriter.cpp
@@ -75,8 +75,11 @@ namespace uima {
         assert( range.isValid());
         os <<"<" << uima::internal::XMLConstants::TAGNAME_FEATURE
         << " " <<  uima::internal::XMLConstants::ATTRIBUTENAME_NAME << "=\"" << features[i].getName()
-        << "\" " << uima::internal::XMLConstants::ATTRIBUTENAME_RANGE << "=\"" << range.getName() << "\"/>" << endl;
-// TODO ? add multiRefs ?
+        << "\" " << uima::internal::XMLConstants::ATTRIBUTENAME_RANGE << "=\"" << range.getName() << "\"";
+        if (features[i].isMultipleReferencesAllowed()) {
+          os << " " << uima::internal::XMLConstants::ATTRIBUTENAME_MULTIREFS << "=\"true\"";
+        }
+        os << "/>" << endl;
       }
     }
     vector<uima::Type> subTypes;
@@ -95,7 +98,8 @@ namespace uima {
     "<!ELEMENT " << uima::internal::XMLConstants::TAGNAME_TYPE << " (" << uima::internal::XMLConstants::TAGNAME_FEATURE << "|" << uima::internal::XMLConstants::TAGNAME_TYPE << ")*>\n"
     "<!ATTLIST " << uima::internal::XMLConstants::TAGNAME_TYPE << " " << uima::internal::XMLConstants::ATTRIBUTENAME_NAME << " CDATA #REQUIRED>\n"
     "<!ELEMENT " << uima::internal::XMLConstants::TAGNAME_FEATURE << " EMPTY>\n"
-    "<!ATTLIST " << uima::internal::XMLConstants::TAGNAME_FEATURE << " " << uima::internal::XMLConstants::ATTRIBUTENAME_NAME << " CDATA #REQUIRED " << uima::internal::XMLConstants::ATTRIBUTENAME_RANGE << " CDATA #REQUIRED >\n"
+    "<!ATTLIST " << uima::internal::XMLConstants::TAGNAME_FEATURE << " " << uima::internal::XMLConstants::ATTRIBUTENAME_NAME << " CDATA #REQUIRED " << uima::internal::XMLConstants::ATTRIBUTENAME_RANGE << " CDATA #REQUIRED "
+    << uima::internal::XMLConstants::ATTRIBUTENAME_MULTIREFS << " CDATA #IMPLIED >\n"
     "]>" << endl;
 
     os << "<" << uima::internal::XMLConstants::TAGNAME_TYPEHIERARCHY << ">" << endl;
-- 
2.43.0


From 69860050bfea4c51ef810dfbb471cdef4738395d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:59 +0000
Subject: [PATCH 081/143] fix: create the features of supertypes before those
 of their subtypes

---
 src/framework/casdefinition.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index eab24d7..b15bd9c 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -34,6 +34,7 @@
 /* ----------------------------------------------------------------------- */
 #include "uima/pragmas.hpp"
 
+#include <map>
 #include <set>
 
 #include "xercesc/util/PlatformUtils.hpp"
@@ -398,9 +399,15 @@ namespace uima {
         mergeType( rTypeSystem, crTypeName, crTSDesc, crCreatorID, typesBeingMerged );
       }
 
-      // create features
+      // create features, those of a type before those of its subtypes
+      // (types are numbered in the order of their creation, supertypes first)
+      multimap<uima::lowlevel::TyFSType, TypeDescription const *> typeDescs;
       for (cit = crTypeDescVector.begin(); cit != crTypeDescVector.end(); ++cit) {
-        TypeDescription const * pTypeDesc = *cit;
+        typeDescs.insert( make_pair(rTypeSystem.getTypeByName( (*cit)->getName() ), (TypeDescription const *) *cit) );
+      }
+      multimap<uima::lowlevel::TyFSType, TypeDescription const *>::const_iterator citDescs;
+      for (citDescs = typeDescs.begin(); citDescs != typeDescs.end(); ++citDescs) {
+        TypeDescription const * pTypeDesc = (*citDescs).second;
         uima::lowlevel::TyFSType introType = rTypeSystem.getTypeByName( pTypeDesc->getName() );
         // type must have been merged before
         assert( rTypeSystem.isValidType(introType) );
-- 
2.43.0


From 9ea4ae7cec8db3b19af889c69c71bace4ee3b765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:34 +0000
Subject: [PATCH 082/143] fix: read CDATA sections and entity references in
 descriptor text

---
 src/framework/taespecifierbuilder.cpp      | 48 +++++++++++-----------
 src/framework/uima/taespecifierbuilder.hpp |  1 +
 2 files changed, 25 insertions(+), 24 deletions(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index f450ae4..853101c 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -2236,35 +2236,35 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
 
   icu::UnicodeString XMLParser::getSpannedText(DOMNode * node) {
     assert(EXISTS(node));
-    DOMNodeList * children = node->getChildNodes();
-    assert(EXISTS(children));
     icu::UnicodeString spannedText;
-    size_t i;
-    for (i=0; i < children->getLength(); i++) {
-      if (children->item(i)->getNodeType() == DOMNode::TEXT_NODE) {
-        spannedText.append(convert(children->item(i)->getNodeValue()));
-      } else {
-        const icu::UnicodeString & childTag = convert((children->item(i))->getNodeName());
-        if (childTag.compare(TAG_ENV_VAR_REF) == 0) {
-          icu::UnicodeString envVarName(convert(children->item(i)->getFirstChild()->getNodeValue()));
+    appendSpannedText(node, spannedText);
+    spannedText.trim();
+    return spannedText;
+  }
+
+  void XMLParser::appendSpannedText(DOMNode * node, icu::UnicodeString & spannedText) {
+    for (DOMNode * child = node->getFirstChild(); child != NULL; child = child->getNextSibling()) {
+      switch (child->getNodeType()) {
+      case DOMNode::TEXT_NODE:
+      case DOMNode::CDATA_SECTION_NODE:
+        spannedText.append(convert(child->getNodeValue()));
+        break;
+      case DOMNode::ENTITY_REFERENCE_NODE:
+        appendSpannedText(child, spannedText);
+        break;
+      case DOMNode::ELEMENT_NODE:
+        if (convert(child->getNodeName()).compare(TAG_ENV_VAR_REF) == 0) {
+          icu::UnicodeString envVarName(getSpannedText(child));
           util::EnvironmentVariableQueryOnly clEnvVar(UnicodeStringRef(envVarName).asUTF8().c_str());
-          spannedText.append(clEnvVar.getValue());
-        } else {
-          /**
-          ErrorMessage errMsg(UIMA_MSG_ID_EXC_UNKNOWN_CONFIG_XML_TAG);
-          errMsg.addParam(childTag);
-          errMsg.addParam(schemaFileName);
-          UIMA_EXC_THROW_NEW(InvalidXMLException,
-                            UIMA_ERR_CONFIG_INVALID_XML_TAG,
-                            errMsg,
-                            UIMA_MSG_ID_EXCON_BUILD_TAE_SPEC,
-                            ErrorInfo::unrecoverable);
-          **/
+          if (clEnvVar.getValue() != NULL) {
+            spannedText.append(clEnvVar.getValue());
+          }
         }
+        break;
+      default:
+        break; // comments and processing instructions
       }
     }
-    spannedText.trim();
-    return spannedText;
   }
 
   DOMNode * XMLParser::findFirst(DOMNodeList * nodes,
diff --git a/src/framework/uima/taespecifierbuilder.hpp b/src/framework/uima/taespecifierbuilder.hpp
index 9a6fc20..f1d4b86 100644
--- a/src/framework/uima/taespecifierbuilder.hpp
+++ b/src/framework/uima/taespecifierbuilder.hpp
@@ -228,6 +228,7 @@ namespace uima {
      XMLCh const * convert(char const * cpBuf) const;
     icu::UnicodeString convert( XMLCh const * cpUCBuf ) const;
     icu::UnicodeString getSpannedText(DOMNode * node);
+    void appendSpannedText(DOMNode * node, icu::UnicodeString & spannedText);
     DOMNode * findFirst(DOMNodeList * nodes, char const * tagName);
     DOMElement * findFirstElementNode(DOMNodeList * nodes);
     bool isTrue(const icu::UnicodeString & value) const;
-- 
2.43.0


From 4185e1cb5ba964b3ead32a6cec41b945ba2667ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:55 +0000
Subject: [PATCH 083/143] fix: parse descriptors in several threads without a
 shared conversion buffer

---
 src/framework/taespecifierbuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 853101c..9c8318d 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -71,7 +71,7 @@ namespace uima {
 
   UIMA_EXC_CLASSIMPLEMENT(InvalidXMLException, uima::Exception);
 
-  static XMLCh gs_tempXMLChBuffer[ MAXXMLCHBUFF ];
+  static thread_local XMLCh gs_tempXMLChBuffer[ MAXXMLCHBUFF ];
 
   XMLParser::XMLParser()
       :iv_pXMLErrorHandler(NULL) {}
-- 
2.43.0


From df914213b4259bb5d80ba7070939e397601e4fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:12 +0000
Subject: [PATCH 084/143] fix: reject descriptors with unexpected elements also
 when assertions are off

---
 src/framework/taespecifierbuilder.cpp | 105 +++++++++++++++-----------
 1 file changed, 60 insertions(+), 45 deletions(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 9c8318d..49e3f0b 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -73,6 +73,32 @@ namespace uima {
 
   static thread_local XMLCh gs_tempXMLChBuffer[ MAXXMLCHBUFF ];
 
+  /* Returns the name of an element, as a Unicode string. */
+  static icu::UnicodeString elementName(DOMNode const * node) {
+    return icu::UnicodeString((UChar const *) node->getNodeName());
+  }
+
+  /* Rejects an element which is not (one of) the one(s) expected in its place. */
+  static void checkElement(DOMNode const * node, char const * tag,
+                           char const * tag2 = NULL, char const * tag3 = NULL) {
+    if (node != NULL) {
+      icu::UnicodeString name(elementName(node));
+      if (name.compare(tag) == 0
+          || (tag2 != NULL && name.compare(tag2) == 0)
+          || (tag3 != NULL && name.compare(tag3) == 0)) {
+        return;
+      }
+    }
+    ErrorMessage errMsg(UIMA_MSG_ID_EXC_UNKNOWN_CONFIG_XML_TAG);
+    errMsg.addParam(node == NULL ? icu::UnicodeString() : elementName(node));
+    errMsg.addParam(ResourceManager::getInstance().getSchemaInfo());
+    UIMA_EXC_THROW_NEW(InvalidXMLException,
+                       UIMA_ERR_CONFIG_INVALID_XML_TAG,
+                       errMsg,
+                       UIMA_MSG_ID_EXCON_BUILD_TAE_SPEC,
+                       ErrorInfo::unrecoverable);
+  }
+
   XMLParser::XMLParser()
       :iv_pXMLErrorHandler(NULL) {}
 
@@ -208,7 +234,7 @@ namespace uima {
     DOMElement * rootElem = doc->getDocumentElement();
     assert(EXISTS(rootElem));
 
-    assert( XMLString::compareString(rootElem->getNodeName(), convert(TAG_TYPE_SYSTEM_DESC)) == 0);
+    checkElement(rootElem, TAG_TYPE_SYSTEM_DESC);
     //TypeSystemDescription * tsSpec = buildTypeSystemDesc(rootElem);
     buildTypeSystemDesc(tsDesc, rootElem);
     if (bHasOwnErrorHandler) {
@@ -345,9 +371,7 @@ namespace uima {
       DOMElement * descElem,
       const icu::UnicodeString & xmlFileLoc) {
     assert(EXISTS(descElem));
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_TAE_DESC)) == 0 ||
-            XMLString::compareString(descElem->getNodeName(), convert(TAG_AE_DESC)) == 0 ||
-            XMLString::compareString(descElem->getNodeName(), convert(TAG_CASCONSUMER_DESC)) == 0 );
+    checkElement(descElem, TAG_TAE_DESC, TAG_AE_DESC, TAG_CASCONSUMER_DESC);
     //save the root node name
     if (XMLString::compareString(descElem->getNodeName(), convert(TAG_CASCONSUMER_DESC)) == 0) {
       taeSpec.setPrimitive(true);
@@ -379,7 +403,7 @@ namespace uima {
               if (node->getNodeType() != DOMNode::ELEMENT_NODE) {
                 continue;
               }
-              assert(XMLString::compareString(node->getNodeName(), convert(TAG_DELEGATE_AE)) == 0);
+              checkElement(node, TAG_DELEGATE_AE);
               DOMElement * delegateAE =  (DOMElement *)node;
               assert(EXISTS(delegateAE));
               icu::UnicodeString key = convert(delegateAE->getAttribute(convert(ATTR_DELEGATE_AE_KEY)));
@@ -495,7 +519,7 @@ namespace uima {
     DOMElement * descElem,
     const icu::UnicodeString & xmlFileLoc) {
     assert(EXISTS(descElem));
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_TYPE_SYSTEM_DESC)) == 0);
+    checkElement(descElem, TAG_TYPE_SYSTEM_DESC);
     
     buildTypeSystemDesc(tsDesc, descElem);
 	
@@ -504,8 +528,7 @@ namespace uima {
   AnalysisEngineMetaData * XMLParser::buildAEMetaData(DOMElement * descElem,
       icu::UnicodeString const & xmlFileLoc) {
     assert(EXISTS(descElem));
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_AE_METADATA)) == 0 ||
-            XMLString::compareString(descElem->getNodeName(), convert(TAG_PROCESSING_RESOURCE_METADATA)) == 0 );
+    checkElement(descElem, TAG_AE_METADATA, TAG_PROCESSING_RESOURCE_METADATA);
 
     AnalysisEngineMetaData * aeMetaData = new AnalysisEngineMetaData();
 
@@ -670,7 +693,7 @@ namespace uima {
 
   ConfigurationParameter * XMLParser::buildConfigParam(DOMElement * descElem) {
     assert(EXISTS(descElem));
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_CONFIG_PARAM)) == 0);
+    checkElement(descElem, TAG_CONFIG_PARAM);
     DOMNodeList * children = descElem->getChildNodes();
     assert( EXISTS(children) );
 
@@ -749,7 +772,7 @@ namespace uima {
   void XMLParser::buildConfigParamSettings(AnalysisEngineMetaData & aeMetadata,
       DOMElement * descElem) {
     assert(EXISTS(descElem));
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_CONFIG_PARAM_SETTINGS)) == 0);
+    checkElement(descElem, TAG_CONFIG_PARAM_SETTINGS);
     DOMNodeList * children = descElem->getChildNodes();
 
     if (! EXISTS(children)) { //there are no settings defined
@@ -832,7 +855,7 @@ namespace uima {
 
   NameValuePair * XMLParser::buildNameValuePair(DOMElement * descElem) {
     assert(EXISTS(descElem));
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_NAME_VALUE_PAIR)) == 0);
+    checkElement(descElem, TAG_NAME_VALUE_PAIR);
     DOMNodeList * children = descElem->getChildNodes();
     assert( EXISTS(children) );
 
@@ -866,7 +889,7 @@ namespace uima {
 
   void XMLParser::buildValue(NameValuePair & nvPair, DOMElement * descElem) {
     assert(EXISTS(descElem));
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_NAME_VALUE_PAIR_VALUE)) == 0);
+    checkElement(descElem, TAG_NAME_VALUE_PAIR_VALUE);
     DOMNodeList * children = descElem->getChildNodes();
     assert( EXISTS(children) );
 
@@ -928,7 +951,7 @@ namespace uima {
 
   void XMLParser::buildTypeSystemDesc(TypeSystemDescription & typeSystemDesc, DOMElement * descElem) {
     assert(EXISTS(descElem));
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_TYPE_SYSTEM_DESC)) == 0);
+    checkElement(descElem, TAG_TYPE_SYSTEM_DESC);
     DOMNodeList * children = descElem->getChildNodes();
     assert( EXISTS(children) );
     //assert( children->getLength() == 1); //currently, there's only the 'types' element
@@ -988,7 +1011,7 @@ namespace uima {
 
   ImportDescription * XMLParser::buildImportDesc(DOMElement * descElem) {
     assert(EXISTS(descElem));
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_IMPORT_DESC)) == 0);
+    checkElement(descElem, TAG_IMPORT_DESC);
 
     ImportDescription * importDesc = new ImportDescription();
 
@@ -1016,7 +1039,7 @@ namespace uima {
 
   TypeDescription * XMLParser::buildTypeDesc(DOMElement * descElem) {
     assert(EXISTS(descElem));
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_TYPE_DESC)) == 0);
+    checkElement(descElem, TAG_TYPE_DESC);
     DOMNodeList * children = descElem->getChildNodes();
     assert( EXISTS(children) );
 
@@ -1085,7 +1108,7 @@ namespace uima {
 
   FeatureDescription * XMLParser::buildFeatureDesc(DOMElement * descElem) {
     assert(EXISTS(descElem));
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_TYPE_DESC_FEAT_DESC)) == 0);
+    checkElement(descElem, TAG_TYPE_DESC_FEAT_DESC);
     DOMNodeList * children = descElem->getChildNodes();
     assert( EXISTS(children) );
 
@@ -1127,7 +1150,7 @@ namespace uima {
 
   AllowedValue * XMLParser::buildAllowedValue(DOMElement * descElem) {
     assert(EXISTS(descElem));
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_TYPE_DESC_ALLOWED_VALS_VAL)) == 0);
+    checkElement(descElem, TAG_TYPE_DESC_ALLOWED_VALS_VAL);
     DOMNodeList * children = descElem->getChildNodes();
     assert( EXISTS(children) );
     AllowedValue * allVal = new AllowedValue();
@@ -1163,7 +1186,7 @@ namespace uima {
   void XMLParser::buildTypePriorities(AnalysisEngineMetaData::TyVecpTypePriorities & vecpTypePriorities,
       DOMElement * descElem) {
     assert(EXISTS(descElem));
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_TYPE_PRIORITIES)) == 0);
+    checkElement(descElem, TAG_TYPE_PRIORITIES);
     DOMNodeList * children = descElem->getChildNodes();
 
     if (! EXISTS(children)) { // there may be no index descriptions
@@ -1187,7 +1210,7 @@ namespace uima {
       vector<icu::UnicodeString> & alreadyImportedLocations) {
 
     assert(EXISTS(descElem));
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_TYPE_PRIORITIES)) == 0);
+    checkElement(descElem, TAG_TYPE_PRIORITIES);
     DOMNodeList * children = descElem->getChildNodes();
 
     if (! EXISTS(children)) { // there may be no type priorities
@@ -1246,7 +1269,7 @@ namespace uima {
 
   TypePriority * XMLParser::buildTypePriority(DOMElement * specElem) {
     assert(EXISTS(specElem));
-    assert( XMLString::compareString(specElem->getNodeName(), convert(TAG_TYPE_PRIORITY_LIST)) == 0);
+    checkElement(specElem, TAG_TYPE_PRIORITY_LIST);
     DOMNodeList * children = specElem->getChildNodes();
     assert(EXISTS(children));
 
@@ -1296,7 +1319,7 @@ namespace uima {
 	  }
 	}
 
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_FS_INDEXES)) == 0);
+    checkElement(descElem, TAG_FS_INDEXES);
     DOMNodeList * children = descElem->getChildNodes();
 
     if (! EXISTS(children)) { // there may be no index descriptions
@@ -1318,7 +1341,7 @@ namespace uima {
       DOMElement * descElem)   {
     assert(EXISTS(descElem));
 
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_FS_INDEXES)) == 0);
+    checkElement(descElem, TAG_FS_INDEXES);
     DOMNodeList * children = descElem->getChildNodes();
 
     if (! EXISTS(children)) { // there may be no index descriptions
@@ -1341,8 +1364,7 @@ namespace uima {
       icu::UnicodeString const & lastFileName) {
 
     assert(EXISTS(descElem));
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_FS_INDEX_COLLECTION)) == 0
-            || XMLString::compareString(descElem->getNodeName(), convert(TAG_FS_INDEXES)) == 0);
+    checkElement(descElem, TAG_FS_INDEX_COLLECTION, TAG_FS_INDEXES);
     DOMNodeList * children = descElem->getChildNodes();
 
     if (! EXISTS(children)) { // there may be no index descriptions
@@ -1396,7 +1418,7 @@ namespace uima {
   FSIndexDescription * XMLParser::buildFSIndexDesc(DOMElement * descElem) {
     assert(EXISTS(descElem));
 	//cout << __FILE__ <<  " " << UnicodeString((UChar*)descElem->getNodeName()) << endl;
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_FS_INDEX_DESC)) == 0);
+    checkElement(descElem, TAG_FS_INDEX_DESC);
     DOMNodeList * children = descElem->getChildNodes();
     assert(EXISTS(children));
 
@@ -1461,7 +1483,7 @@ namespace uima {
 
   FSIndexKeyDescription * XMLParser::buildFSIndexKeyDesc(DOMElement * descElem) {
     assert(EXISTS(descElem));
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_FS_INDEX_KEY)) == 0);
+    checkElement(descElem, TAG_FS_INDEX_KEY);
     DOMNodeList * children = descElem->getChildNodes();
     assert(EXISTS(children));
 
@@ -1515,10 +1537,9 @@ namespace uima {
   void XMLParser::buildCapabilities(AnalysisEngineMetaData & aeMetaData,
       DOMElement * descElem) {
     assert(EXISTS(descElem));
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_CAPABILITIES)) == 0);
+    checkElement(descElem, TAG_CAPABILITIES);
     DOMNodeList * children = descElem->getChildNodes();
     assert(EXISTS(children));
-    assert(children->getLength() > 0);
 
     size_t i;
     for (i=0; i < children->getLength(); i++) {
@@ -1537,7 +1558,7 @@ namespace uima {
   void XMLParser::buildCapability(AnalysisEngineMetaData & aeMetaData,
       DOMElement * descElem) {
     assert(EXISTS(descElem));
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_CAPABILITY)) == 0);
+    checkElement(descElem, TAG_CAPABILITY);
     DOMNodeList * children = descElem->getChildNodes();
     assert(EXISTS(children));
 
@@ -1557,7 +1578,7 @@ namespace uima {
           if ((languages->item(j))->getNodeType() != DOMNode::ELEMENT_NODE) {
             continue;
           }
-          assert(XMLString::compareString((languages->item(j))->getNodeName(), convert(TAG_CAP_LANG)) == 0);
+          checkElement(languages->item(j), TAG_CAP_LANG);
           capability->addSupportedLanguage(getSpannedText(languages->item(j)));
         }
       } else {//it's either input or output capabilities
@@ -1643,10 +1664,9 @@ namespace uima {
 
   FlowConstraints * XMLParser::buildFlowConstraints(DOMElement * descElem) {
     assert(EXISTS(descElem));
-    assert( XMLString::compareString( descElem->getNodeName(), convert(TAG_FLOW) ) == 0);
+    checkElement(descElem, TAG_FLOW);
     DOMNodeList * children = descElem->getChildNodes();
     assert(EXISTS(children));
-    assert(children->getLength() > 0);
 
     FlowConstraints * flow = NULL;
 
@@ -1682,10 +1702,9 @@ namespace uima {
 
   OperationalProperties * XMLParser::buildOperationalProperties(DOMElement * descElem) {
     assert(EXISTS(descElem));
-    assert( XMLString::compareString( descElem->getNodeName(), convert(TAG_OPERATIONAL_PROPERTIES) ) == 0);
+    checkElement(descElem, TAG_OPERATIONAL_PROPERTIES);
     DOMNodeList * children = descElem->getChildNodes();
     assert(EXISTS(children));
-    assert(children->getLength() > 0);
 
     OperationalProperties * op = new OperationalProperties();
 
@@ -1724,10 +1743,9 @@ namespace uima {
 
   FixedFlow * XMLParser::buildFixedFlow(DOMElement * descElem) {
     assert(EXISTS(descElem));
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_FLOW_FIX)) == 0);
+    checkElement(descElem, TAG_FLOW_FIX);
     DOMNodeList * nodes = descElem->getChildNodes();
     assert(EXISTS(nodes));
-    assert(nodes->getLength() > 0);
 
     FixedFlow * flow = new FixedFlow();
 
@@ -1736,7 +1754,7 @@ namespace uima {
       if ((nodes->item(i))->getNodeType() != DOMNode::ELEMENT_NODE) {
         continue;
       }
-      assert(XMLString::compareString((nodes->item(i))->getNodeName(), convert(TAG_FLOW_FIX_NODE)) == 0);
+      checkElement(nodes->item(i), TAG_FLOW_FIX_NODE);
       flow->addNode(getSpannedText(nodes->item(i)));
     }
     return flow;
@@ -1744,10 +1762,9 @@ namespace uima {
 
   CapabilityLanguageFlow * XMLParser::buildCapabilityLanguageFlow(DOMElement * descElem) {
     assert(EXISTS(descElem));
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_FLOW_CAPABILITY_LANG)) == 0);
+    checkElement(descElem, TAG_FLOW_CAPABILITY_LANG);
     DOMNodeList * nodes = descElem->getChildNodes();
     assert(EXISTS(nodes));
-    assert(nodes->getLength() > 0);
 
     CapabilityLanguageFlow * flow = new CapabilityLanguageFlow();
 
@@ -1756,7 +1773,7 @@ namespace uima {
       if ((nodes->item(i))->getNodeType() != DOMNode::ELEMENT_NODE) {
         continue;
       }
-      assert(XMLString::compareString((nodes->item(i))->getNodeName(), convert(TAG_FLOW_CAPABILITY_LANG_NODE)) == 0);
+      checkElement(nodes->item(i), TAG_FLOW_CAPABILITY_LANG_NODE);
       flow->addNode(getSpannedText(nodes->item(i)));
     }
     return flow;
@@ -1766,10 +1783,9 @@ namespace uima {
   void XMLParser::buildSofaMappings(AnalysisEngineDescription::TyVecpSofaMappings & sofaMappings,
       DOMElement * descElem) {
     assert(EXISTS(descElem));
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_SOFA_MAPPINGS)) == 0);
+    checkElement(descElem, TAG_SOFA_MAPPINGS);
     DOMNodeList * children = descElem->getChildNodes();
     assert(EXISTS(children));
-    assert(children->getLength() > 0);
 
     size_t i;
     for (i=0; i < children->getLength(); i++) {
@@ -1785,10 +1801,9 @@ namespace uima {
   void XMLParser::buildSofaMappings(AnalysisEngineDescription & taeSpec,
       DOMElement * descElem) {
     assert(EXISTS(descElem));
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_SOFA_MAPPINGS)) == 0);
+    checkElement(descElem, TAG_SOFA_MAPPINGS);
     DOMNodeList * children = descElem->getChildNodes();
     assert(EXISTS(children));
-    assert(children->getLength() > 0);
 
     size_t i;
     for (i=0; i < children->getLength(); i++) {
@@ -1808,7 +1823,7 @@ namespace uima {
   **/
   SofaMapping * XMLParser::buildSofaMapping(DOMElement * descElem) {
     assert(EXISTS(descElem));
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_SOFA_MAPPING)) == 0);
+    checkElement(descElem, TAG_SOFA_MAPPING);
     DOMNodeList * children = descElem->getChildNodes();
     assert(EXISTS(children));
 
-- 
2.43.0


From 19726361e0c74098d4f3606ea86222aeae594d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:30 +0000
Subject: [PATCH 085/143] fix: release partially built descriptions when a
 descriptor is rejected

---
 src/framework/taespecifierbuilder.cpp | 112 +++++++++++++-------------
 1 file changed, 58 insertions(+), 54 deletions(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 49e3f0b..c4a932e 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -530,7 +530,7 @@ namespace uima {
     assert(EXISTS(descElem));
     checkElement(descElem, TAG_AE_METADATA, TAG_PROCESSING_RESOURCE_METADATA);
 
-    AnalysisEngineMetaData * aeMetaData = new AnalysisEngineMetaData();
+    unique_ptr<AnalysisEngineMetaData> aeMetaData( new AnalysisEngineMetaData() );
 
     DOMNodeList * children = descElem->getChildNodes();
     assert( EXISTS(children) );
@@ -594,7 +594,7 @@ namespace uima {
     if (! (EXISTS(tsDesc)) ) {
       aeMetaData->setTypeSystemDescription(new TypeSystemDescription());
     }
-    return aeMetaData;
+    return aeMetaData.release();
   }
 
  
@@ -648,10 +648,16 @@ namespace uima {
           if ((commonParms->item(j))->getNodeType() != DOMNode::ELEMENT_NODE) {
             continue;
           }
-          aeMetaData.addCommonParameter(buildConfigParam((DOMElement *) commonParms->item(j)));
+          unique_ptr<ConfigurationParameter> param( buildConfigParam((DOMElement *) commonParms->item(j)) );
+          if (aeMetaData.addCommonParameter(param.get()) == UIMA_ERR_NONE) {
+            param.release();
+          }
         }
       } else if (childTag.compare(TAG_CONFIG_PARAM) == 0) {
-        aeMetaData.addConfigurationParameter(buildConfigParam(child));
+        unique_ptr<ConfigurationParameter> param( buildConfigParam(child) );
+        if (aeMetaData.addConfigurationParameter(param.get()) == UIMA_ERR_NONE) {
+          param.release();
+        }
       } else if (childTag.compare(TAG_CONFIG_PARAM_GROUP) == 0) {
         //contains the groups as space-separated string
         const icu::UnicodeString & groupNameString = convert(child->getAttribute(convert(ATTR_CONFIG_PARAM_GROUP_NAMES)));
@@ -683,8 +689,10 @@ namespace uima {
             //we can't put the same configParam into the groups, as they will delete their
             //member in their destructor
             //tbd: build only once, copy the result, pass the copies into 'add'
-            ConfigurationParameter * configParam = buildConfigParam((DOMElement *) confParmsInGroup->item(k));
-            aeMetaData.addConfigurationParameter(icu::UnicodeString(groupNames[l].c_str(), "UTF-8"), configParam);
+            unique_ptr<ConfigurationParameter> configParam( buildConfigParam((DOMElement *) confParmsInGroup->item(k)) );
+            if (aeMetaData.addConfigurationParameter(icu::UnicodeString(groupNames[l].c_str(), "UTF-8"), configParam.get()) == UIMA_ERR_NONE) {
+              configParam.release();
+            }
           }
         }
       }
@@ -697,7 +705,7 @@ namespace uima {
     DOMNodeList * children = descElem->getChildNodes();
     assert( EXISTS(children) );
 
-    ConfigurationParameter * configParm = new ConfigurationParameter();
+    unique_ptr<ConfigurationParameter> configParm( new ConfigurationParameter() );
 
     size_t i;
     for (i=0; i < children->getLength(); i++) {
@@ -763,7 +771,7 @@ namespace uima {
       }
     }
 
-    return configParm;
+    return configParm.release();
   }
 
   
@@ -805,7 +813,7 @@ namespace uima {
             //we can't put the same nvPair into the groups, as they will delete their
             //member in their destructor
             //tbd: build only once, copy the result, pass the copies into 'add'
-            NameValuePair * nvPair = buildNameValuePair((DOMElement *) nvPairsForGroup->item(k));
+            unique_ptr<NameValuePair> nvPair( buildNameValuePair((DOMElement *) nvPairsForGroup->item(k)) );
             icu::UnicodeString groupName(groupNames[l].c_str(), "UTF-8");
             //check for duplicate name value pairs
             //as a side effect, this also ensures that all name value pairs are defined
@@ -819,11 +827,12 @@ namespace uima {
                                  UIMA_MSG_ID_EXCON_BUILD_TAE_SPEC,
                                  ErrorInfo::recoverable);
             }
-            aeMetadata.addNameValuePair(groupName, nvPair);
+            aeMetadata.addNameValuePair(groupName, nvPair.get());
+            nvPair.release();
           }
         }
       } else if (childTag.compare(TAG_NAME_VALUE_PAIR) == 0) {
-        NameValuePair * nvPair = buildNameValuePair(child);
+        unique_ptr<NameValuePair> nvPair( buildNameValuePair(child) );
         //check for duplicate name value pairs
         //as a side effect, this also ensures that all name value pairs are defined
         //as configuration parameters
@@ -836,7 +845,8 @@ namespace uima {
                              UIMA_MSG_ID_EXCON_BUILD_TAE_SPEC,
                              ErrorInfo::recoverable);
         }
-        aeMetadata.addNameValuePair(nvPair);
+        aeMetadata.addNameValuePair(nvPair.get());
+        nvPair.release();
       } else {
         /**
         ErrorMessage errMsg(UIMA_MSG_ID_EXC_UNKNOWN_CONFIG_XML_TAG);
@@ -859,7 +869,7 @@ namespace uima {
     DOMNodeList * children = descElem->getChildNodes();
     assert( EXISTS(children) );
 
-    NameValuePair * nvPair = new NameValuePair();
+    unique_ptr<NameValuePair> nvPair( new NameValuePair() );
     size_t i;
     for (i=0; i < children->getLength(); i++) {
       if ((children->item(i))->getNodeType() != DOMNode::ELEMENT_NODE) {
@@ -884,7 +894,7 @@ namespace uima {
         **/
       }
     }
-    return nvPair;
+    return nvPair.release();
   }
 
   void XMLParser::buildValue(NameValuePair & nvPair, DOMElement * descElem) {
@@ -1013,7 +1023,7 @@ namespace uima {
     assert(EXISTS(descElem));
     checkElement(descElem, TAG_IMPORT_DESC);
 
-    ImportDescription * importDesc = new ImportDescription();
+    unique_ptr<ImportDescription> importDesc( new ImportDescription() );
 
     const XMLCh* location = descElem->getAttribute(convert(ATTR_IMPORT_DESC_LOCATION));
     if (isDefined(location)) {
@@ -1034,7 +1044,7 @@ namespace uima {
       }
     }
 
-    return importDesc;
+    return importDesc.release();
   }
 
   TypeDescription * XMLParser::buildTypeDesc(DOMElement * descElem) {
@@ -1043,7 +1053,7 @@ namespace uima {
     DOMNodeList * children = descElem->getChildNodes();
     assert( EXISTS(children) );
 
-    TypeDescription * typeDesc = new TypeDescription();
+    unique_ptr<TypeDescription> typeDesc( new TypeDescription() );
 
     size_t i;
     for (i=0; i < children->getLength(); i++) {
@@ -1103,7 +1113,7 @@ namespace uima {
         **/
       }
     }
-    return typeDesc;
+    return typeDesc.release();
   }
 
   FeatureDescription * XMLParser::buildFeatureDesc(DOMElement * descElem) {
@@ -1112,7 +1122,7 @@ namespace uima {
     DOMNodeList * children = descElem->getChildNodes();
     assert( EXISTS(children) );
 
-    FeatureDescription * featureDesc = new FeatureDescription();
+    unique_ptr<FeatureDescription> featureDesc( new FeatureDescription() );
     size_t i;
     for (i=0; i< children->getLength(); i++) {
       if ((children->item(i))->getNodeType() != DOMNode::ELEMENT_NODE) {
@@ -1145,7 +1155,7 @@ namespace uima {
         **/
       }
     }
-    return featureDesc;
+    return featureDesc.release();
   }
 
   AllowedValue * XMLParser::buildAllowedValue(DOMElement * descElem) {
@@ -1153,7 +1163,7 @@ namespace uima {
     checkElement(descElem, TAG_TYPE_DESC_ALLOWED_VALS_VAL);
     DOMNodeList * children = descElem->getChildNodes();
     assert( EXISTS(children) );
-    AllowedValue * allVal = new AllowedValue();
+    unique_ptr<AllowedValue> allVal( new AllowedValue() );
 
     size_t i;
     for (i=0; i< children->getLength(); i++) {
@@ -1179,7 +1189,7 @@ namespace uima {
         **/
       }
     }
-    return allVal;
+    return allVal.release();
   }
 
 
@@ -1273,7 +1283,7 @@ namespace uima {
     DOMNodeList * children = specElem->getChildNodes();
     assert(EXISTS(children));
 
-    TypePriority * pPrio = new TypePriority();
+    unique_ptr<TypePriority> pPrio( new TypePriority() );
     size_t i;
     for (i=0; i < children->getLength(); i++) {
       if ((children->item(i))->getNodeType() != DOMNode::ELEMENT_NODE) {
@@ -1296,7 +1306,7 @@ namespace uima {
         **/
       }
     }
-    return pPrio;
+    return pPrio.release();
   }
 
 
@@ -1422,7 +1432,7 @@ namespace uima {
     DOMNodeList * children = descElem->getChildNodes();
     assert(EXISTS(children));
 
-    FSIndexDescription * fsIndexDesc = new FSIndexDescription();
+    unique_ptr<FSIndexDescription> fsIndexDesc( new FSIndexDescription() );
 
     size_t i;
     for (i=0; i< children->getLength(); i++) {
@@ -1478,7 +1488,7 @@ namespace uima {
         **/
       }
     }
-    return fsIndexDesc;
+    return fsIndexDesc.release();
   }
 
   FSIndexKeyDescription * XMLParser::buildFSIndexKeyDesc(DOMElement * descElem) {
@@ -1487,7 +1497,7 @@ namespace uima {
     DOMNodeList * children = descElem->getChildNodes();
     assert(EXISTS(children));
 
-    FSIndexKeyDescription * indexKeyDesc = new FSIndexKeyDescription();
+    unique_ptr<FSIndexKeyDescription> indexKeyDesc( new FSIndexKeyDescription() );
 
     size_t i;
     for (i=0; i < children->getLength(); i++) {
@@ -1531,7 +1541,7 @@ namespace uima {
         **/
       }
     }
-    return indexKeyDesc;
+    return indexKeyDesc.release();
   }
 
   void XMLParser::buildCapabilities(AnalysisEngineMetaData & aeMetaData,
@@ -1562,7 +1572,7 @@ namespace uima {
     DOMNodeList * children = descElem->getChildNodes();
     assert(EXISTS(children));
 
-    Capability * capability = new Capability();
+    unique_ptr<Capability> capability( new Capability() );
     size_t i;
     for (i=0; i < children->getLength(); i++) {
       if ((children->item(i))->getNodeType() != DOMNode::ELEMENT_NODE) {
@@ -1658,7 +1668,9 @@ namespace uima {
         }
       }
     }
-    aeMetaData.addCapability(capability);
+    if (aeMetaData.addCapability(capability.get()) == UIMA_ERR_NONE) {
+      capability.release();
+    }
   }
 
 
@@ -1668,7 +1680,7 @@ namespace uima {
     DOMNodeList * children = descElem->getChildNodes();
     assert(EXISTS(children));
 
-    FlowConstraints * flow = NULL;
+    unique_ptr<FlowConstraints> flow;
 
     size_t i;
     for (i=0; i < children->getLength(); i++) {
@@ -1680,9 +1692,9 @@ namespace uima {
 
 
       if (childTag.compare(TAG_FLOW_FIX) == 0) {
-        flow = buildFixedFlow(child);
+        flow.reset(buildFixedFlow(child));
       } else if (childTag.compare(TAG_FLOW_CAPABILITY_LANG)==0) {
-        flow = buildCapabilityLanguageFlow(child);
+        flow.reset(buildCapabilityLanguageFlow(child));
       } else {
         /**
         ErrorMessage errMsg(UIMA_MSG_ID_EXC_UNKNOWN_CONFIG_XML_TAG);
@@ -1696,7 +1708,7 @@ namespace uima {
         **/
       }
     }
-    return flow;
+    return flow.release();
   }
 
 
@@ -1706,7 +1718,7 @@ namespace uima {
     DOMNodeList * children = descElem->getChildNodes();
     assert(EXISTS(children));
 
-    OperationalProperties * op = new OperationalProperties();
+    unique_ptr<OperationalProperties> op( new OperationalProperties() );
 
     size_t i;
     for (i=0; i < children->getLength(); i++) {
@@ -1735,7 +1747,7 @@ namespace uima {
         **/
       }
     }
-    return op;
+    return op.release();
   }
 
 
@@ -1747,7 +1759,7 @@ namespace uima {
     DOMNodeList * nodes = descElem->getChildNodes();
     assert(EXISTS(nodes));
 
-    FixedFlow * flow = new FixedFlow();
+    unique_ptr<FixedFlow> flow( new FixedFlow() );
 
     size_t i;
     for (i=0; i < nodes->getLength(); i++) {
@@ -1757,7 +1769,7 @@ namespace uima {
       checkElement(nodes->item(i), TAG_FLOW_FIX_NODE);
       flow->addNode(getSpannedText(nodes->item(i)));
     }
-    return flow;
+    return flow.release();
   }
 
   CapabilityLanguageFlow * XMLParser::buildCapabilityLanguageFlow(DOMElement * descElem) {
@@ -1766,7 +1778,7 @@ namespace uima {
     DOMNodeList * nodes = descElem->getChildNodes();
     assert(EXISTS(nodes));
 
-    CapabilityLanguageFlow * flow = new CapabilityLanguageFlow();
+    unique_ptr<CapabilityLanguageFlow> flow( new CapabilityLanguageFlow() );
 
     size_t i;
     for (i=0; i < nodes->getLength(); i++) {
@@ -1776,7 +1788,7 @@ namespace uima {
       checkElement(nodes->item(i), TAG_FLOW_CAPABILITY_LANG_NODE);
       flow->addNode(getSpannedText(nodes->item(i)));
     }
-    return flow;
+    return flow.release();
   }
 
 
@@ -1827,7 +1839,7 @@ namespace uima {
     DOMNodeList * children = descElem->getChildNodes();
     assert(EXISTS(children));
 
-    SofaMapping * sofamapping = new SofaMapping();
+    unique_ptr<SofaMapping> sofamapping( new SofaMapping() );
     size_t i;
     for (i=0; i < children->getLength(); i++) {
       if ((children->item(i))->getNodeType() != DOMNode::ELEMENT_NODE) {
@@ -1856,7 +1868,7 @@ namespace uima {
         **/
       }
     }
-    return sofamapping;
+    return sofamapping.release();
   }
 
 void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
@@ -2101,15 +2113,11 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
     }
 
     LocalFileInputSource fileIS((XMLCh const *) arBuffer.get() );
-    TypeSystemDescription*  pDesc = new TypeSystemDescription();
-	if ( !(EXISTS(pDesc)) ) {
-		//TODO
-		return NULL;
-	}
+    unique_ptr<TypeSystemDescription> pDesc( new TypeSystemDescription() );
 
     pDesc->setXmlFileLocation(fileName);
     parseTypeSystemDescription(*pDesc, fileIS);
-    return pDesc;
+    return pDesc.release();
   }
 
 
@@ -2122,13 +2130,9 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
   TypeSystemDescription * TextAnalysisEngineSpecifierBuilder::buildTypeSystemSpecifierFromXMLBuffer(char const * xmlString) {
 
     MemBufInputSource memIS((XMLByte const *) xmlString, strlen(xmlString), "sysID");
-    TypeSystemDescription * tsDesc = new TypeSystemDescription();
-	if (!EXISTS(tsDesc)) {
-		//TODO: log error
-		return NULL;
-	}
+    unique_ptr<TypeSystemDescription> tsDesc( new TypeSystemDescription() );
 	parseTypeSystemDescription(*tsDesc, memIS);
-    return tsDesc;	
+    return tsDesc.release();
   }
 
   
-- 
2.43.0


From be5ec80212251f2aa3a0f4613d40733ccc74f9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 086/143] fix: read the priority lists inside a priorityLists
 element

---
 src/framework/taespecifierbuilder.cpp      | 20 ++++++++++++++++++--
 src/framework/uima/taespecifierbuilder.hpp |  1 +
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index c4a932e..137811c 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -1207,8 +1207,16 @@ namespace uima {
       if ((children->item(i))->getNodeType() != DOMNode::ELEMENT_NODE) {
         continue;
       }
-      TypePriority * prio =  buildTypePriority((DOMElement *)children->item(i));
-      vecpTypePriorities.push_back(prio);
+      if (elementName(children->item(i)).compare(TAG_TYPE_PRIORITY_LIST) == 0) {
+        vecpTypePriorities.push_back(buildTypePriority((DOMElement *)children->item(i)));
+      } else if (elementName(children->item(i)).compare(TAG_TYPE_PRIORITY_LISTS) == 0) {
+        DOMNodeList * lists = children->item(i)->getChildNodes();
+        for (size_t j=0; j < lists->getLength(); j++) {
+          if (lists->item(j)->getNodeType() == DOMNode::ELEMENT_NODE) {
+            vecpTypePriorities.push_back(buildTypePriority((DOMElement *)lists->item(j)));
+          }
+        }
+      }
     }
   }
 
@@ -1238,6 +1246,13 @@ namespace uima {
       if (childTag.compare(TAG_TYPE_PRIORITY_LIST) == 0) {
         TypePriority * prio =  buildTypePriority((DOMElement *)child);
         aeMetaData.addTypePriority(prio);
+      } else if (childTag.compare(TAG_TYPE_PRIORITY_LISTS) == 0) {
+        DOMNodeList * lists = child->getChildNodes();
+        for (size_t j=0; j < lists->getLength(); j++) {
+          if (lists->item(j)->getNodeType() == DOMNode::ELEMENT_NODE) {
+            aeMetaData.addTypePriority(buildTypePriority((DOMElement *)lists->item(j)));
+          }
+        }
       } else if (childTag.compare(TAG_IMPORTS)==0) {
         DOMNodeList * importDescs = child->getChildNodes();
         if (EXISTS(importDescs)) {
@@ -2402,6 +2417,7 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
   char const * XMLParser::TAG_TYPE_DESC_FEAT_DESC_MULTREFS="multipleReferencesAllowed";
 
   char const * XMLParser::TAG_TYPE_PRIORITIES="typePriorities";
+  char const * XMLParser::TAG_TYPE_PRIORITY_LISTS="priorityLists";
   char const * XMLParser::TAG_TYPE_PRIORITY_LIST="priorityList";
   char const * XMLParser::TAG_TYPE_PRIORITY_LIST_TYPE="type";
 
diff --git a/src/framework/uima/taespecifierbuilder.hpp b/src/framework/uima/taespecifierbuilder.hpp
index f1d4b86..c905907 100644
--- a/src/framework/uima/taespecifierbuilder.hpp
+++ b/src/framework/uima/taespecifierbuilder.hpp
@@ -324,6 +324,7 @@ namespace uima {
     static char const * TAG_TYPE_DESC_FEAT_DESC_DESC;
 	static char const * TAG_TYPE_DESC_FEAT_DESC_MULTREFS;
     static char const * TAG_TYPE_PRIORITIES;
+    static char const * TAG_TYPE_PRIORITY_LISTS;
     static char const * TAG_TYPE_PRIORITY_LIST;
     static char const * TAG_TYPE_PRIORITY_LIST_TYPE;
     static char const * TAG_FS_INDEXES;
-- 
2.43.0


From 896a79c1dc38cfbdd3acc5b64a747f229ddb9a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:17 +0000
Subject: [PATCH 087/143] fix: read index descriptions and imports in every
 form the schema allows

---
 src/framework/taespecifierbuilder.cpp | 50 ++++++++++-----------------
 1 file changed, 18 insertions(+), 32 deletions(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 137811c..5104ae4 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -564,7 +564,8 @@ namespace uima {
         vector <icu::UnicodeString> alreadyImported;
         buildTypePriorities(*aeMetaData, child, xmlFileLoc, alreadyImported);
       } else if (childTag.compare(TAG_FS_INDEXES) == 0) {
-        buildFSIndexes(*aeMetaData, child);
+        vector <icu::UnicodeString> alreadyImported;
+        buildFSIndexCollection(*aeMetaData, child, alreadyImported, xmlFileLoc);
       } else if (childTag.compare(TAG_FS_INDEX_COLLECTION) == 0) {
         vector <icu::UnicodeString> alreadyImported;
         buildFSIndexCollection(*aeMetaData, child, alreadyImported, xmlFileLoc);
@@ -1328,57 +1329,40 @@ namespace uima {
   void XMLParser::buildFSIndexes(AnalysisEngineMetaData::TyVecpFSIndexDescriptions & vecFSIndexDesc,
       DOMElement * descElem) {
     assert(EXISTS(descElem));
-
-
-	if ( XMLString::compareString(descElem->getNodeName(), convert(TAG_FS_INDEX_COLLECTION)) == 0) {
-      DOMNodeList * children = descElem->getChildNodes();
-      if (! EXISTS(children)) { // there may be no index descriptions
-        return;
-      }
-	  for (size_t i=0; i < children->getLength(); i++) {
-        if ((children->item(i))->getNodeType() != DOMNode::ELEMENT_NODE) {
-          continue;
-        }
-		descElem = (DOMElement*) children->item(i);
-		break;
-	  }
-	}
-
-    checkElement(descElem, TAG_FS_INDEXES);
+    checkElement(descElem, TAG_FS_INDEXES, TAG_FS_INDEX_COLLECTION);
     DOMNodeList * children = descElem->getChildNodes();
 
-    if (! EXISTS(children)) { // there may be no index descriptions
-      return;
-    }
-
     size_t i;
     for (i=0; i < children->getLength(); i++) {
       if ((children->item(i))->getNodeType() != DOMNode::ELEMENT_NODE) {
         continue;
       }
-      FSIndexDescription * indexDesc = buildFSIndexDesc((DOMElement *) children->item(i));
-      vecFSIndexDesc.push_back(indexDesc);
-      //aeMetaData.addFSIndexDescription(buildFSIndexDesc((DOMElement *) children->item(i)));
+      DOMElement * child = (DOMElement *) children->item(i);
+      if (elementName(child).compare(TAG_FS_INDEX_DESC) == 0) {
+        vecFSIndexDesc.push_back(buildFSIndexDesc(child));
+      } else if (elementName(child).compare(TAG_FS_INDEXES) == 0) {
+        buildFSIndexes(vecFSIndexDesc, child);
+      }
     }
   }
 
   void XMLParser::buildFSIndexes(AnalysisEngineMetaData & aeMetaData,
       DOMElement * descElem)   {
     assert(EXISTS(descElem));
-
     checkElement(descElem, TAG_FS_INDEXES);
     DOMNodeList * children = descElem->getChildNodes();
 
-    if (! EXISTS(children)) { // there may be no index descriptions
-      return;
-    }
-
     size_t i;
     for (i=0; i < children->getLength(); i++) {
       if ((children->item(i))->getNodeType() != DOMNode::ELEMENT_NODE) {
         continue;
       }
-      aeMetaData.addFSIndexDescription(buildFSIndexDesc((DOMElement *) children->item(i)));
+      DOMElement * child = (DOMElement *) children->item(i);
+      if (elementName(child).compare(TAG_FS_INDEX_DESC) == 0) {
+        aeMetaData.addFSIndexDescription(buildFSIndexDesc(child));
+      } else if (elementName(child).compare(TAG_FS_INDEXES) == 0) {
+        buildFSIndexes(aeMetaData, child);
+      }
     }
   }
 
@@ -1404,7 +1388,9 @@ namespace uima {
       DOMElement * child = (DOMElement *) children->item(i);
       const icu::UnicodeString & childTag = convert(child->getNodeName());
       if (childTag.compare(TAG_FS_INDEXES) == 0) {
-        buildFSIndexes(aeMetaData, child);
+        buildFSIndexCollection(aeMetaData, child, alreadyImportedLocations, lastFileName);
+      } else if (childTag.compare(TAG_FS_INDEX_DESC) == 0) {
+        aeMetaData.addFSIndexDescription(buildFSIndexDesc(child));
       } else if (childTag.compare(TAG_IMPORTS)==0) {
 
         DOMNodeList * importDescs = child->getChildNodes();
-- 
2.43.0


From 98cc09bb4396c61410297b2f800dc0210ee5ec00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:49 +0000
Subject: [PATCH 088/143] fix: accept the description and the MIME types of a
 capability

---
 src/framework/taespecifierbuilder.cpp      | 4 ++++
 src/framework/uima/taespecifierbuilder.hpp | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 5104ae4..873cff0 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -1592,6 +1592,9 @@ namespace uima {
           checkElement(languages->item(j), TAG_CAP_LANG);
           capability->addSupportedLanguage(getSpannedText(languages->item(j)));
         }
+      } else if (childTag.compare(TAG_AE_DESCRIPTION) == 0
+                 || childTag.compare(TAG_CAP_MIME_SUPP) == 0) {
+        //accepted by the schema but not used by the framework
       } else {//it's either input or output capabilities
         Capability::EnTypeStyle typeStyle;
         if (childTag.compare(TAG_CAP_INPUTS) == 0) {
@@ -2431,6 +2434,7 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
   char const * XMLParser::TAG_CAP_FEATURE="feature";
   char const * XMLParser::TAG_CAP_LANG_SUPP="languagesSupported";
   char const * XMLParser::TAG_CAP_LANG="language";
+  char const * XMLParser::TAG_CAP_MIME_SUPP="mimeTypesSupported";
 
   char const * XMLParser::TAG_CAP_INPUT_SOFAS="inputSofas";
   char const * XMLParser::TAG_CAP_OUTPUT_SOFAS="outputSofas";
diff --git a/src/framework/uima/taespecifierbuilder.hpp b/src/framework/uima/taespecifierbuilder.hpp
index c905907..815e6b0 100644
--- a/src/framework/uima/taespecifierbuilder.hpp
+++ b/src/framework/uima/taespecifierbuilder.hpp
@@ -354,6 +354,7 @@ namespace uima {
     static char const * TAG_SOFAMAP_AGGREGATE_SOFA_NAME;
     static char const * TAG_CAP_LANG_SUPP;
     static char const * TAG_CAP_LANG;
+    static char const * TAG_CAP_MIME_SUPP;
     static char const * TAG_FLOW;
     static char const * TAG_FLOW_FIX;
     static char const * TAG_FLOW_FIX_NODE;
-- 
2.43.0


From 65003daf69e7b9a35e733b7b32e6539ed0d5ea26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:02 +0000
Subject: [PATCH 089/143] fix: reject delegates without a specifier or with a
 duplicate key

---
 src/framework/taespecifierbuilder.cpp | 44 ++++++++++++++++++---------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 873cff0..8f71c15 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -78,6 +78,22 @@ namespace uima {
     return icu::UnicodeString((UChar const *) node->getNodeName());
   }
 
+  /* Rejects an element; what says which one it is. */
+  static void throwUnknownElement(DOMNode const * node, icu::UnicodeString const & what) {
+    icu::UnicodeString name(node == NULL ? icu::UnicodeString() : elementName(node));
+    if (what.length() > 0) {
+      name.append(" ").append(what);
+    }
+    ErrorMessage errMsg(UIMA_MSG_ID_EXC_UNKNOWN_CONFIG_XML_TAG);
+    errMsg.addParam(name);
+    errMsg.addParam(ResourceManager::getInstance().getSchemaInfo());
+    UIMA_EXC_THROW_NEW(InvalidXMLException,
+                       UIMA_ERR_CONFIG_INVALID_XML_TAG,
+                       errMsg,
+                       UIMA_MSG_ID_EXCON_BUILD_TAE_SPEC,
+                       ErrorInfo::unrecoverable);
+  }
+
   /* Rejects an element which is not (one of) the one(s) expected in its place. */
   static void checkElement(DOMNode const * node, char const * tag,
                            char const * tag2 = NULL, char const * tag3 = NULL) {
@@ -89,14 +105,7 @@ namespace uima {
         return;
       }
     }
-    ErrorMessage errMsg(UIMA_MSG_ID_EXC_UNKNOWN_CONFIG_XML_TAG);
-    errMsg.addParam(node == NULL ? icu::UnicodeString() : elementName(node));
-    errMsg.addParam(ResourceManager::getInstance().getSchemaInfo());
-    UIMA_EXC_THROW_NEW(InvalidXMLException,
-                       UIMA_ERR_CONFIG_INVALID_XML_TAG,
-                       errMsg,
-                       UIMA_MSG_ID_EXCON_BUILD_TAE_SPEC,
-                       ErrorInfo::unrecoverable);
+    throwUnknownElement(node, icu::UnicodeString());
   }
 
   XMLParser::XMLParser()
@@ -407,7 +416,10 @@ namespace uima {
               DOMElement * delegateAE =  (DOMElement *)node;
               assert(EXISTS(delegateAE));
               icu::UnicodeString key = convert(delegateAE->getAttribute(convert(ATTR_DELEGATE_AE_KEY)));
-              AnalysisEngineDescription * pdelegateTaeSpec = new AnalysisEngineDescription();
+              if (taeSpec.getDelegate(key) != NULL) {
+                throwUnknownElement(delegateAE, key);
+              }
+              unique_ptr<AnalysisEngineDescription> pdelegateTaeSpec( new AnalysisEngineDescription() );
               DOMNodeList * childNodes = delegateAE->getChildNodes();
 
               DOMElement * delegateSpec = (DOMElement *) findFirst(childNodes, TAG_AE_DESC);
@@ -418,16 +430,16 @@ namespace uima {
 
               if (EXISTS(delegateSpec)) {           //the delegate is explicitly copied into the aggregate xml file
                 buildAnalysisEngineDescription(*pdelegateTaeSpec, delegateSpec, xmlFileLoc);
-                taeSpec.addDelegate(key, pdelegateTaeSpec);
+                taeSpec.addDelegate(key, pdelegateTaeSpec.release());
               } else {
                 //import element
                 delegateSpec = (DOMElement *) findFirst (childNodes, TAG_IMPORT_DESC);
                 if (delegateSpec != NULL) {
                   icu::UnicodeString loc = convert(delegateSpec->getAttribute(convert(ATTR_IMPORT_DESC_LOCATION)));
-				  icu::UnicodeString fn = ResourceManager::resolveFilename(loc, xmlFileLoc);
-				  if (loc.length() > 0) {			    
-					parseAnalysisEngineDescription(*pdelegateTaeSpec, fn);
-                    taeSpec.addDelegate(key, pdelegateTaeSpec);
+                  if (loc.length() > 0) {
+                    icu::UnicodeString fn = ResourceManager::resolveFilename(loc, xmlFileLoc);
+                    parseAnalysisEngineDescription(*pdelegateTaeSpec, fn);
+                    taeSpec.addDelegate(key, pdelegateTaeSpec.release());
                   } else {
                     //throw exception when import location attribute is not set.
                     ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_UNKNOWN_CONFIG_XML_TAG);
@@ -448,8 +460,10 @@ namespace uima {
                     icu::UnicodeString newFileName = ResourceManager::resolveFilename(getSpannedText(delegateInc),
                                                      xmlFileLoc);
                     parseAnalysisEngineDescription(*pdelegateTaeSpec, newFileName);
-                    taeSpec.addDelegate(key, pdelegateTaeSpec);
+                    taeSpec.addDelegate(key, pdelegateTaeSpec.release());
 
+                  } else { // no specifier at all
+                    throwUnknownElement(delegateAE, key);
                   }
                 }  //include
               }
-- 
2.43.0


From d995281727a544730504a98e2bc74ca7ad52229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:19 +0000
Subject: [PATCH 090/143] fix: reject descriptors without or with repeated
 metadata

---
 src/framework/taespecifierbuilder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 8f71c15..d0b2e45 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -471,6 +471,9 @@ namespace uima {
           }
         } else if (childTag.compare(TAG_AE_METADATA) == 0  ||
                    childTag.compare(TAG_PROCESSING_RESOURCE_METADATA) == 0 ) {
+          if (taeSpec.getAnalysisEngineMetaData() != NULL) {
+            throwUnknownElement(children->item(i), icu::UnicodeString());
+          }
           taeSpec.setAnalysisEngineMetaData(buildAEMetaData((DOMElement *) (children->item(i)), xmlFileLoc));
           taeSpec.getAnalysisEngineMetaData()->getTypeSystemDescription()->setXmlFileLocation(xmlFileLoc);
           std::vector<icu::UnicodeString> alreadyImportedTypeSystemLocations;
@@ -518,6 +521,9 @@ namespace uima {
           **/
         }
       }
+      if (taeSpec.getAnalysisEngineMetaData() == NULL) { // required
+        throwUnknownElement(descElem, icu::UnicodeString());
+      }
     } catch (InvalidXMLException & rclException) {
       rclException.getErrorInfo().addContext(ErrorMessage(UIMA_MSG_ID_EXCON_BUILD_TAE_SPEC_FROM_FILE, xmlFileLoc));
       throw rclException;
-- 
2.43.0


From 5cd4df43f65041d17bc09592d81aad37e7b08557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:16 +0000
Subject: [PATCH 091/143] fix: report errors of the XML parser as exceptions of
 the framework and keep the error handler consistent

---
 src/framework/taespecifierbuilder.cpp | 258 +++++++-------------------
 1 file changed, 70 insertions(+), 188 deletions(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index d0b2e45..4cf4871 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -108,6 +108,51 @@ namespace uima {
     throwUnknownElement(node, icu::UnicodeString());
   }
 
+  /* Reports an error of the XML parser which did not go through the error handler. */
+  static void throwIllFormedInput(UChar const * systemId, XMLCh const * message) {
+    ErrorInfo errInfo;
+    errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
+    ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
+    assertWithMsg(sizeof(XMLCh) == sizeof(UChar), "Port required");
+    msg.addParam( systemId == NULL ? icu::UnicodeString() : icu::UnicodeString(systemId) );
+    msg.addParam( 0 );
+    msg.addParam( 0 );
+    msg.addParam( message == NULL ? icu::UnicodeString() : icu::UnicodeString((UChar const *) message) );
+    errInfo.setMessage(msg);
+    errInfo.setSeverity(ErrorInfo::unrecoverable);
+    ExcIllFormedInputError exc(errInfo);
+    throw exc;
+  }
+
+  static void parseDocument(XercesDOMParser & parser, InputSource const & source) {
+    try {
+      parser.parse( source );
+    } catch (XMLException const & e) {
+      throwIllFormedInput((UChar const *) source.getSystemId(), e.getMessage());
+    } catch (DOMException const & e) {
+      throwIllFormedInput((UChar const *) source.getSystemId(), e.getMessage());
+    }
+  }
+
+  /* Provides a default error handler for as long as a document is processed, unless there is one. */
+  class ErrorHandlerOwner {
+  public:
+    ErrorHandlerOwner(ErrorHandler * & handler) : iv_handler(handler), iv_owns(handler == NULL) {
+      if (iv_owns) {
+        iv_handler = new XMLErrorHandler();
+      }
+    }
+    ~ErrorHandlerOwner() {
+      if (iv_owns) {
+        delete iv_handler;
+        iv_handler = NULL;
+      }
+    }
+  private:
+    ErrorHandler * & iv_handler;
+    bool iv_owns;
+  };
+
   XMLParser::XMLParser()
       :iv_pXMLErrorHandler(NULL) {}
 
@@ -144,18 +189,7 @@ namespace uima {
     try {
       LocalFileInputSource fileISOnlyForException((XMLCh const *) arBuffer.get() );
     } catch (XMLException const & e) {
-      ErrorInfo errInfo;
-      errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
-      ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
-      assertWithMsg(sizeof(XMLCh) == sizeof(UChar), "Port required");
-      msg.addParam( arBuffer.get() );
-      msg.addParam( 0 );
-      msg.addParam( 0 );
-      msg.addParam( (UChar const *) e.getMessage());
-      errInfo.setMessage(msg);
-      errInfo.setSeverity(ErrorInfo::unrecoverable);
-      ExcIllFormedInputError exc(errInfo);
-      throw exc;
+      throwIllFormedInput(arBuffer.get(), e.getMessage());
     }
 
     LocalFileInputSource fileIS((XMLCh const *) arBuffer.get() ); 
@@ -174,25 +208,10 @@ namespace uima {
       parser.setDoSchema(false);
     }
     parser.setExternalSchemaLocation( ResourceManager::getInstance().getSchemaInfo());
-    bool bHasOwnErrorHandler = false;
-    
-    if (iv_pXMLErrorHandler == NULL) {
-      iv_pXMLErrorHandler = new XMLErrorHandler();
-      assert( EXISTS(iv_pXMLErrorHandler) );
-      bHasOwnErrorHandler = true;
-    }
-
+    ErrorHandlerOwner errorHandler(iv_pXMLErrorHandler);
     parser.setErrorHandler(iv_pXMLErrorHandler);
-    
-    try {
-      parser.parse( crInputSource );
-    } catch (Exception e){
-      if (bHasOwnErrorHandler) {
-        delete iv_pXMLErrorHandler;
-        iv_pXMLErrorHandler = NULL; 
-      }
-      throw(e);      
-    }
+    parseDocument(parser, crInputSource);
+
     
     DOMDocument* doc = parser.getDocument();
     assert(EXISTS(doc));
@@ -203,10 +222,6 @@ namespace uima {
 
     buildAnalysisEngineDescription(taeSpec, rootElem, convert(crInputSource.getSystemId()));
 
-    if (bHasOwnErrorHandler) {
-      delete iv_pXMLErrorHandler;
-      iv_pXMLErrorHandler = NULL;
-    }
   }
 
 
@@ -217,23 +232,10 @@ namespace uima {
     parser.setDoNamespaces(true);
     parser.setDoSchema( ResourceManager::getInstance().isSchemaAvailable());
     parser.setExternalSchemaLocation( ResourceManager::getInstance().getSchemaInfo());
-    bool bHasOwnErrorHandler = false;
-    if (iv_pXMLErrorHandler == NULL) {
-      iv_pXMLErrorHandler = new XMLErrorHandler();
-      assert( EXISTS(iv_pXMLErrorHandler) );
-      bHasOwnErrorHandler = true;
-    }
-
+    ErrorHandlerOwner errorHandler(iv_pXMLErrorHandler);
     parser.setErrorHandler(iv_pXMLErrorHandler);
-    try {
-      parser.parse( crInputSource );
-    } catch (Exception const & e){
-      if (bHasOwnErrorHandler) {
-        delete iv_pXMLErrorHandler;
-        iv_pXMLErrorHandler = NULL; 
-      }
-      throw e;
-    }
+    parseDocument(parser, crInputSource);
+
 
 
     DOMDocument* doc = parser.getDocument();
@@ -246,10 +248,6 @@ namespace uima {
     checkElement(rootElem, TAG_TYPE_SYSTEM_DESC);
     //TypeSystemDescription * tsSpec = buildTypeSystemDesc(rootElem);
     buildTypeSystemDesc(tsDesc, rootElem);
-    if (bHasOwnErrorHandler) {
-      delete iv_pXMLErrorHandler;
-      iv_pXMLErrorHandler = NULL;
-    }
 
   }
 
@@ -263,22 +261,10 @@ namespace uima {
     parser.setDoSchema(false);
     parser.setExternalSchemaLocation(UIMA_XML_NAMESPACE " ");
 
-    bool bHasOwnErrorHandler = false;
-    if (iv_pXMLErrorHandler == NULL) {
-      iv_pXMLErrorHandler = new XMLErrorHandler();
-      assert( EXISTS(iv_pXMLErrorHandler) );
-      bHasOwnErrorHandler = true;
-    }
+    ErrorHandlerOwner errorHandler(iv_pXMLErrorHandler);
     parser.setErrorHandler(iv_pXMLErrorHandler);
-    try {
-    parser.parse( crInputSource );
-    } catch (Exception const & e){
-      if (bHasOwnErrorHandler) {
-        delete iv_pXMLErrorHandler;
-        iv_pXMLErrorHandler = NULL; 
-      }
-      throw e;
-    }
+    parseDocument(parser, crInputSource);
+
 
     DOMDocument* doc = parser.getDocument();
     // get top node
@@ -286,10 +272,6 @@ namespace uima {
 
     assert(EXISTS(descElem));
 
-    if (bHasOwnErrorHandler) {
-      delete iv_pXMLErrorHandler;
-      iv_pXMLErrorHandler = NULL;
-    }
     buildFSIndexes(fsDesc, descElem);
   }
 
@@ -302,23 +284,10 @@ namespace uima {
     parser.setDoSchema(false);
     parser.setExternalSchemaLocation(UIMA_XML_NAMESPACE " ");
 
-    bool bHasOwnErrorHandler = false;
-    if (iv_pXMLErrorHandler == NULL) {
-      iv_pXMLErrorHandler = new XMLErrorHandler();
-      assert( EXISTS(iv_pXMLErrorHandler) );
-      bHasOwnErrorHandler = true;
-    }
-
+    ErrorHandlerOwner errorHandler(iv_pXMLErrorHandler);
     parser.setErrorHandler(iv_pXMLErrorHandler);
-    try {
-      parser.parse( crInputSource );
-    } catch (Exception const & e){
-      if (bHasOwnErrorHandler) {
-        delete iv_pXMLErrorHandler;
-        iv_pXMLErrorHandler = NULL; 
-      }
-      throw e;
-    }
+    parseDocument(parser, crInputSource);
+
 
     DOMDocument* doc = parser.getDocument();
     // get top node
@@ -326,10 +295,6 @@ namespace uima {
 
     assert(EXISTS(descElem));
 
-    if (bHasOwnErrorHandler) {
-      delete iv_pXMLErrorHandler;
-      iv_pXMLErrorHandler = NULL;
-    }
 
     buildTypePriorities(prioDesc, descElem);
   }
@@ -344,33 +309,16 @@ namespace uima {
     parser.setDoSchema(false);
     parser.setExternalSchemaLocation(UIMA_XML_NAMESPACE " ");
 
-    bool bHasOwnErrorHandler = false;
-    if (iv_pXMLErrorHandler == NULL) {
-      iv_pXMLErrorHandler = new XMLErrorHandler();
-      assert( EXISTS(iv_pXMLErrorHandler) );
-      bHasOwnErrorHandler = true;
-    }
-
+    ErrorHandlerOwner errorHandler(iv_pXMLErrorHandler);
     parser.setErrorHandler(iv_pXMLErrorHandler);
-    try {
-    parser.parse( crInputSource );
-    } catch (Exception const & e){
-      if (bHasOwnErrorHandler) {
-        delete iv_pXMLErrorHandler;
-        iv_pXMLErrorHandler = NULL; 
-      }
-      throw e;
-    }
+    parseDocument(parser, crInputSource);
+
 
     DOMDocument* doc = parser.getDocument();
     // get top node
     DOMElement * descElem = doc->getDocumentElement();
     assert(EXISTS(descElem));
 
-    if (bHasOwnErrorHandler) {
-      delete iv_pXMLErrorHandler;
-      iv_pXMLErrorHandler = NULL;
-    }
 
     buildSofaMappings(sofaMapDesc, descElem);
   }
@@ -1923,18 +1871,7 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
     try {
       LocalFileInputSource fileISOnlyForException((XMLCh const *) arBuffer.get() );
     } catch (XMLException const & e) {
-      ErrorInfo errInfo;
-      errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
-      ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
-      assertWithMsg(sizeof(XMLCh) == sizeof(UChar), "Port required");
-      msg.addParam( arBuffer.get() );
-      msg.addParam( 0 );
-      msg.addParam( 0 );
-      msg.addParam( (UChar const *) e.getMessage());
-      errInfo.setMessage(msg);
-      errInfo.setSeverity(ErrorInfo::unrecoverable);
-      ExcIllFormedInputError exc(errInfo);
-      throw exc;
+      throwIllFormedInput(arBuffer.get(), e.getMessage());
     }
 
     LocalFileInputSource fileIS((XMLCh const *) arBuffer.get() );
@@ -1945,33 +1882,16 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
     parser.setDoSchema(false);
     parser.setExternalSchemaLocation(UIMA_XML_NAMESPACE " ");
 
-    bool bHasOwnErrorHandler = false;
-    if (iv_pXMLErrorHandler == NULL) {
-      iv_pXMLErrorHandler = new XMLErrorHandler();
-      assert( EXISTS(iv_pXMLErrorHandler) );
-      bHasOwnErrorHandler = true;
-    }
-
+    ErrorHandlerOwner errorHandler(iv_pXMLErrorHandler);
     parser.setErrorHandler(iv_pXMLErrorHandler);
-    try {
-      parser.parse( fileIS );
-    } catch (Exception e) {
-      if (bHasOwnErrorHandler) {
-        delete iv_pXMLErrorHandler;
-        iv_pXMLErrorHandler=NULL;
-      }
-      throw  e;
-    }
+    parseDocument(parser, fileIS);
+
     DOMDocument* doc = parser.getDocument();
     // get top node
     DOMElement * descElem = doc->getDocumentElement();
 
     assert(EXISTS(descElem));
 
-    if (bHasOwnErrorHandler ) {
-      delete iv_pXMLErrorHandler;
-      iv_pXMLErrorHandler =  NULL;
-    }
     buildFSIndexCollection(fsDesc, descElem, alreadyImportedLocations, importfn);
   }
 
@@ -2005,18 +1925,7 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
     try {
       LocalFileInputSource fileISOnlyForException((XMLCh const *) arBuffer.get() );
     } catch (XMLException const & e) {
-      ErrorInfo errInfo;
-      errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
-      ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
-      assertWithMsg(sizeof(XMLCh) == sizeof(UChar), "Port required");
-      msg.addParam( arBuffer.get() );
-      msg.addParam( 0 );
-      msg.addParam( 0 );
-      msg.addParam( (UChar const *) e.getMessage());
-      errInfo.setMessage(msg);
-      errInfo.setSeverity(ErrorInfo::unrecoverable);
-      ExcIllFormedInputError exc(errInfo);
-      throw exc;
+      throwIllFormedInput(arBuffer.get(), e.getMessage());
     }
 
     LocalFileInputSource fileIS((XMLCh const *) arBuffer.get() );
@@ -2027,32 +1936,16 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
     parser.setDoSchema(false);
     parser.setExternalSchemaLocation(UIMA_XML_NAMESPACE " ");
 
-    bool bHasOwnErrorHandler = false;
-    if (iv_pXMLErrorHandler == NULL) {
-      iv_pXMLErrorHandler = new XMLErrorHandler();
-      assert( EXISTS(iv_pXMLErrorHandler) );
-      bHasOwnErrorHandler = true;
-    }
+    ErrorHandlerOwner errorHandler(iv_pXMLErrorHandler);
     parser.setErrorHandler(iv_pXMLErrorHandler);
-    try {
-      parser.parse( fileIS );
-    } catch (Exception e) {
-      if (bHasOwnErrorHandler) {
-        delete iv_pXMLErrorHandler;
-        iv_pXMLErrorHandler = NULL;
-      }
-      throw e;
-    }
+    parseDocument(parser, fileIS);
+
     DOMDocument* doc = parser.getDocument();
     // get top node
     DOMElement * descElem = doc->getDocumentElement();
 
     assert(EXISTS(descElem));
 
-    if (bHasOwnErrorHandler) {
-      delete iv_pXMLErrorHandler;
-      iv_pXMLErrorHandler = NULL;
-    }
 
     buildTypePriorities(aeDesc, descElem, importfn, alreadyImportedLocations);
   }
@@ -2122,18 +2015,7 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
     try {
       LocalFileInputSource fileISOnlyForException((XMLCh const *) arBuffer.get() );
     } catch (XMLException const & e) {
-      ErrorInfo errInfo;
-      errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
-      ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
-      assertWithMsg(sizeof(XMLCh) == sizeof(UChar), "Port required");
-      msg.addParam( arBuffer.get() );
-      msg.addParam( 0 );
-      msg.addParam( 0 );
-      msg.addParam( (UChar const *) e.getMessage());
-      errInfo.setMessage(msg);
-      errInfo.setSeverity(ErrorInfo::unrecoverable);
-      ExcIllFormedInputError exc(errInfo);
-      throw exc;
+      throwIllFormedInput(arBuffer.get(), e.getMessage());
     }
 
     LocalFileInputSource fileIS((XMLCh const *) arBuffer.get() );
-- 
2.43.0


From 96456b545d2e5dbb2a028d8a33923850cf1ed124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:33 +0000
Subject: [PATCH 092/143] fix: keep the text of a descriptor alive while it is
 parsed from memory

---
 src/framework/taespecifierbuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 4cf4871..4da354e 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -1975,8 +1975,8 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
 
   void TextAnalysisEngineSpecifierBuilder::buildTaeFromMemory(AnalysisEngineDescription & taeSpec,
       icu::UnicodeString const & xmlString) {
-	UnicodeStringRef uref(xmlString);
-    MemBufInputSource memIS((XMLByte const *) uref.asUTF8().c_str(), uref.asUTF8().length(), "sysID");
+    std::string utf8(UnicodeStringRef(xmlString).asUTF8());
+    MemBufInputSource memIS((XMLByte const *) utf8.c_str(), utf8.length(), "sysID");
     parseAnalysisEngineDescription(taeSpec, memIS);
   }
 
-- 
2.43.0


From 216cb44d5d69c6308d84e229c20cff1af1507ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:36 +0000
Subject: [PATCH 093/143] fix: resolve file names with characters of several
 bytes

---
 src/framework/resmgr.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/framework/resmgr.cpp b/src/framework/resmgr.cpp
index 57dadcc..2da2e7c 100644
--- a/src/framework/resmgr.cpp
+++ b/src/framework/resmgr.cpp
@@ -799,11 +799,14 @@ namespace uima {
   }
 
   icu::UnicodeString ResourceManager::resolveFilename(icu::UnicodeString const & filename, icu::UnicodeString const & lastFilename) {
-    auto_array<char> filename_cstr( new char[filename.length() + 1] );
-    filename.extract(0, filename.length(), filename_cstr.get());
-
-    auto_array<char> lastFilename_cstr( new char[lastFilename.length() + 1] );
-    lastFilename.extract(0, lastFilename.length(), lastFilename_cstr.get());
+    // in the default encoding a name may need several bytes per character
+    int32_t filenameLength = filename.extract(0, filename.length(), (char *) NULL, (uint32_t) 0);
+    auto_array<char> filename_cstr( new char[filenameLength + 1] );
+    filename.extract(0, filename.length(), filename_cstr.get(), (uint32_t) (filenameLength + 1));
+
+    int32_t lastFilenameLength = lastFilename.extract(0, lastFilename.length(), (char *) NULL, (uint32_t) 0);
+    auto_array<char> lastFilename_cstr( new char[lastFilenameLength + 1] );
+    lastFilename.extract(0, lastFilename.length(), lastFilename_cstr.get(), (uint32_t) (lastFilenameLength + 1));
 
     //build the filename
     util::Filename fileLoc(filename_cstr.get());
-- 
2.43.0


From aa734d57b56340bad8bf10519f5488d4fa2aea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:08 +0000
Subject: [PATCH 094/143] fix: reject descriptors which include each other in a
 circle

---
 src/framework/resmgr.cpp                   |  1 +
 src/framework/taespecifierbuilder.cpp      | 21 +++++++++++++++++++--
 src/framework/uima/taespecifierbuilder.hpp |  1 +
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/framework/resmgr.cpp b/src/framework/resmgr.cpp
index 2da2e7c..96574a5 100644
--- a/src/framework/resmgr.cpp
+++ b/src/framework/resmgr.cpp
@@ -826,6 +826,7 @@ namespace uima {
     locSameDirAsLast.setNewName(filename_cstr.get());
 
     if (locSameDirAsLast.isExistent()) {
+      locSameDirAsLast.normalizeAbsolute();             // one name per file, for imports in a circle
       return locSameDirAsLast.getAsCString();
     }
 
diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 4da354e..de77610 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -174,7 +174,7 @@ namespace uima {
   void XMLParser::parseAnalysisEngineDescription(AnalysisEngineDescription & taeSpec,
       icu::UnicodeString const & fileName) {
 
-    icu::UnicodeString const & fn = ResourceManager::resolveFilename(fileName, ".");
+    icu::UnicodeString const fn = ResourceManager::resolveFilename(fileName, ".");
     size_t uiLen = fn.length();
     auto_array<UChar> arBuffer( new UChar[uiLen + 1] );
     assert( EXISTS(arBuffer.get()));
@@ -192,8 +192,25 @@ namespace uima {
       throwIllFormedInput(arBuffer.get(), e.getMessage());
     }
 
+    for (size_t i=0; i < iv_vecFilesBeingParsed.size(); i++) {
+      if (iv_vecFilesBeingParsed[i] == fn) {
+        UIMA_EXC_THROW_NEW(InvalidXMLException,
+                           UIMA_ERR_CONFIG_CYCLIC_XINCLUSION,
+                           ErrorMessage(UIMA_MSG_ID_EXC_XINCLUSION_IS_CYCLIC, fn),
+                           UIMA_MSG_ID_EXCON_BUILD_TAE_SPEC,
+                           ErrorInfo::unrecoverable);
+      }
+    }
+
     LocalFileInputSource fileIS((XMLCh const *) arBuffer.get() ); 
-    parseAnalysisEngineDescription(taeSpec, fileIS);
+    iv_vecFilesBeingParsed.push_back(fn);
+    try {
+      parseAnalysisEngineDescription(taeSpec, fileIS);
+    } catch (...) {
+      iv_vecFilesBeingParsed.pop_back();
+      throw;
+    }
+    iv_vecFilesBeingParsed.pop_back();
   }
 
 
diff --git a/src/framework/uima/taespecifierbuilder.hpp b/src/framework/uima/taespecifierbuilder.hpp
index 815e6b0..32daaa2 100644
--- a/src/framework/uima/taespecifierbuilder.hpp
+++ b/src/framework/uima/taespecifierbuilder.hpp
@@ -258,6 +258,7 @@ namespace uima {
 
   private:
     ErrorHandler * iv_pXMLErrorHandler;
+    std::vector<icu::UnicodeString> iv_vecFilesBeingParsed; // files including each other
 	bool doSchemaValidation;
 	TCHAR * schemaFileName;
    
-- 
2.43.0


From d247aa18f83dfa6590bfb6d87fedd0928d70e72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:22 +0000
Subject: [PATCH 095/143] fix: release imported types which conflict with
 existing ones

---
 src/framework/typesystemdescription.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/framework/typesystemdescription.cpp b/src/framework/typesystemdescription.cpp
index f69c3ff..cfadc79 100644
--- a/src/framework/typesystemdescription.cpp
+++ b/src/framework/typesystemdescription.cpp
@@ -113,10 +113,10 @@ namespace uima {
           bool takesMemoryOwnership;
           //error: same name, different range. Will be raised during validation
           //we have to add a copy of FeatureDescription, as we have to get memory ownership
-          FeatureDescription * pCopyFeatDesc = new FeatureDescription(*pOtherFeatDesc);
-          addFeatureDescription(pCopyFeatDesc, takesMemoryOwnership);
-          if (!takesMemoryOwnership) {
-            delete pCopyFeatDesc;
+          unique_ptr<FeatureDescription> pCopyFeatDesc( new FeatureDescription(*pOtherFeatDesc) );
+          addFeatureDescription(pCopyFeatDesc.get(), takesMemoryOwnership);
+          if (takesMemoryOwnership) {
+            pCopyFeatDesc.release();
           }
         }
       } else {
@@ -261,8 +261,8 @@ namespace uima {
 
     //build typesystem description
     TextAnalysisEngineSpecifierBuilder builder;
-    TypeSystemDescription * pDesc = builder.buildTypeSystemSpecifierFromFile(fileLocation);
-    if (EXISTS(pDesc)) {
+    unique_ptr<TypeSystemDescription> pDesc( builder.buildTypeSystemSpecifierFromFile(fileLocation) );
+    if (EXISTS(pDesc.get())) {
       //add this file to already imported list
       alreadyImportedTypeSystemLocations.push_back(fileLocation);
 
@@ -274,13 +274,12 @@ namespace uima {
       for (size_t i=0; i < importedTypes.size() ; i++) {
         TypeDescription * pOtherTypeDesc = importedTypes[i];
         bool takesMemoryOwnerShip;
-        TypeDescription * pType = new TypeDescription(*pOtherTypeDesc);
-        addTypeDescription(pType, takesMemoryOwnerShip);
-        if (!takesMemoryOwnerShip) {
-          delete pType;
+        unique_ptr<TypeDescription> pType( new TypeDescription(*pOtherTypeDesc) );
+        addTypeDescription(pType.get(), takesMemoryOwnerShip);
+        if (takesMemoryOwnerShip) {
+          pType.release();
         }
       }
-      delete pDesc;
       return UIMA_ERR_NONE;
     } else {
       return UIMA_ERR_RESOURCE_CORRUPTED;
-- 
2.43.0


From 750ef9b04831ce6c93d5216614bf38ca51d6a22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:15 +0000
Subject: [PATCH 096/143] fix: write descriptors completely and escaped

---
 src/framework/taespecifier.cpp      | 489 +++++++---------------------
 src/framework/uima/config_param.hpp |   5 +
 src/framework/uima/taespecifier.hpp |   7 +-
 3 files changed, 132 insertions(+), 369 deletions(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index e7d4c62..30c826f 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -670,29 +670,19 @@ namespace uima {
     }
   }
 
-  void appendCapabilities(Capability::TyVecCapabilityTofs const & v, char const * xmlTag, icu::UnicodeString & s) {
-    size_t i;
-    for (i=0; i<v.size(); ++i) {
-      s.append("<");
-      s.append(xmlTag);
-      s.append(">");
-
-      s.append(v[i]);
-
-      s.append("</");
-      s.append(xmlTag);
-      s.append(">");
-    }
+  /* Appends text of an element or an attribute value. */
+  static void appendText(icu::UnicodeString const & text, icu::UnicodeString & s) {
+    XMLWriterABase::normalize(UnicodeStringRef(text), s);
   }
 
-  void appendSofaName(Capability::TyVecCapabilitySofas const & v, char const * xmlTag, icu::UnicodeString & s) {
+  void appendCapabilities(Capability::TyVecCapabilityTofs const & v, char const * xmlTag, icu::UnicodeString & s) {
     size_t i;
     for (i=0; i<v.size(); ++i) {
       s.append("<");
       s.append(xmlTag);
       s.append(">");
 
-      s.append(v[i]);
+      appendText(v[i], s);
 
       s.append("</");
       s.append(xmlTag);
@@ -709,9 +699,7 @@ namespace uima {
   }
 
   void appendFloat(float f, icu::UnicodeString & s) {
-    char c[256];
-    sprintf(c, "%f", f);
-    s.append(c);
+    s.append( icu::UnicodeString::fromUTF8(XMLWriterABase::realToString(f)) );
   }
 
   void appendInt(int i, icu::UnicodeString & s) {
@@ -728,10 +716,10 @@ namespace uima {
       ConfigurationParameter const * confParam = configParams[i];
       s.append("<configurationParameter>");
       s.append("<name>");
-      s.append(confParam->getName());
+      appendText(confParam->getName(), s);
       s.append("</name>");
       s.append("<description>");
-      s.append(confParam->getDescription());
+      appendText(confParam->getDescription(), s);
       s.append("</description>");
       s.append("<type>");
       ConfigurationParameter::EnParameterType paramType = confParam->getType();
@@ -758,6 +746,17 @@ namespace uima {
       s.append("<mandatory>");
       appendBool(confParam->isMandatory(), s);
       s.append("</mandatory>");
+      vector<icu::UnicodeString> const & restriction = confParam->getRestriction();
+      if (restriction.size() > 0) {
+        s.append("<restrictOverrideTo>");
+        for (size_t k=0; k<restriction.size(); ++k) {
+          if (k > 0) {
+            s.append(" ");
+          }
+          appendText(restriction[k], s);
+        }
+        s.append("</restrictOverrideTo>");
+      }
       s.append("</configurationParameter>");
     }
   }
@@ -769,7 +768,7 @@ namespace uima {
       NameValuePair const * nvp = nvps[i];
       s.append("<nameValuePair>");
       s.append("<name>");
-      s.append( nvp->getName() );
+      appendText(nvp->getName(), s);
       s.append("</name>");
 
       s.append("<value>");
@@ -810,7 +809,7 @@ namespace uima {
             vector<icu::UnicodeString> const & v = nvp->extractStringValues();
             for (j=0; j<v.size(); ++j) {
               s.append("<string>");
-              s.append(v[j]);
+              appendText(v[j], s);
               s.append("</string>");
             }
             break;
@@ -846,7 +845,7 @@ namespace uima {
         case ConfigurationParameter::STRING: {
             icu::UnicodeString const & v = nvp->extractStringValue();
             s.append("<string>");
-            s.append(v);
+            appendText(v, s);
             s.append("</string>");
             break;
           }
@@ -866,7 +865,7 @@ namespace uima {
 
   void  AnalysisEngineDescription::appendToXMLBuffer
   (AnalysisEngineMetaData::TyVecpFSIndexDescriptions const & fsDesc,
-   icu::UnicodeString & s) {
+   icu::UnicodeString & s) const {
 
     size_t i,j;
     s.append("<fsIndexes>");
@@ -875,10 +874,10 @@ namespace uima {
       FSIndexDescription const * ixDesc = ixVec[i];
       s.append("<fsIndexDescription>");
       s.append("<label>");
-      s.append(ixDesc->getLabel());
+      appendText(ixDesc->getLabel(), s);
       s.append("</label>");
       s.append("<typeName>");
-      s.append(ixDesc->getTypeName());
+      appendText(ixDesc->getTypeName(), s);
       s.append("</typeName>");
       s.append("<kind>");
       FSIndexDescription::EnIndexKind ixKind = ixDesc->getIndexKind();
@@ -907,7 +906,7 @@ namespace uima {
             s.append("<typePriority/>");
           } else {
               s.append("<featureName>");
-              s.append(ixKeyDesc->getFeatureName());
+              appendText(ixKeyDesc->getFeatureName(), s);
               s.append("</featureName>");
 
               s.append("<comparator>");
@@ -940,7 +939,7 @@ namespace uima {
 
   void AnalysisEngineDescription::appendToXMLBuffer
   (AnalysisEngineMetaData::TyVecpTypePriorities const & prioDesc,
-   icu::UnicodeString & s) {
+   icu::UnicodeString & s) const {
     size_t i,j;
     if (prioDesc.size() > 0) {
       s.append("<typePriorities>");
@@ -951,7 +950,7 @@ namespace uima {
         for ( j = 0; j < vecTypeOrder.size();  ++j) {
 
           s.append("<type>");
-          s.append(vecTypeOrder[j]);
+          appendText(vecTypeOrder[j], s);
           s.append("</type>");
         }
         s.append("</priorityList>");
@@ -963,7 +962,7 @@ namespace uima {
 
   void AnalysisEngineDescription::appendToXMLBuffer
   (AnalysisEngineDescription::TyVecpSofaMappings const & sofaMapDesc,
-   icu::UnicodeString & s) {
+   icu::UnicodeString & s) const {
     size_t i;
     AnalysisEngineDescription::TyVecpSofaMappings const & sofamappingVec = sofaMapDesc;
     if (sofamappingVec.size() >  0) {
@@ -971,15 +970,15 @@ namespace uima {
       for (i=0; i<sofamappingVec.size(); ++i) {
         s.append("<sofaMapping>");
         s.append("<componentKey>");
-        s.append(sofamappingVec[i]->getComponentKey());
+        appendText(sofamappingVec[i]->getComponentKey(), s);
         s.append("</componentKey>");
 
         s.append("<componentSofaName>");
-        s.append(sofamappingVec[i]->getComponentSofaName());
+        appendText(sofamappingVec[i]->getComponentSofaName(), s);
         s.append("</componentSofaName>");
 
         s.append("<aggregateSofaName>");
-        s.append(sofamappingVec[i]->getAggregateSofaName());
+        appendText(sofamappingVec[i]->getAggregateSofaName(), s);
         s.append("</aggregateSofaName>");
 
         s.append("</sofaMapping>");
@@ -991,108 +990,78 @@ namespace uima {
 
 
   void AnalysisEngineDescription::appendConfigParamsAndSettingsToXMLBuffer(icu::UnicodeString & s) const  {
+    appendConfigParamsAndSettingsToXMLBuffer(*getAnalysisEngineMetaData(), s);
+  }
 
-
-    AnalysisEngineMetaData const & md = * getAnalysisEngineMetaData();
+  void AnalysisEngineDescription::appendConfigParamsAndSettingsToXMLBuffer(AnalysisEngineMetaData const & md, icu::UnicodeString & s) const  {
     // config params
-    if (md.hasGroups()) {
-      s.append("<configurationParameters");
-
-      if (md.hasDefaultGroup()) {
-        s.append(" defaultGroup=\"");
-        s.append( md.iv_defaultGroup );
-        s.append("\"");
-      }
+    s.append("<configurationParameters");
+    if (md.hasDefaultGroup()) {
+      s.append(" defaultGroup=\"");
+      appendText(md.iv_defaultGroup, s);
+      s.append("\"");
+    }
+    s.append(" searchStrategy=\"");
+    switch (md.getSearchStrategy()) {
+    case AnalysisEngineMetaData::DEFAULT_FALLBACK:
+      s.append("default_fallback");
+      break;
+    case AnalysisEngineMetaData::LANGUAGE_FALLBACK:
+      s.append("language_fallback");
+      break;
+    case AnalysisEngineMetaData::NONE:
+      s.append("none");
+      break;
+    }
+    s.append("\">");
 
-      s.append(" searchStrategy=\"");
-      AnalysisEngineMetaData::EnSearchStrategy searchStrategy = md.getSearchStrategy();
-      switch (searchStrategy) {
-      case AnalysisEngineMetaData::DEFAULT_FALLBACK:
-        s.append("default_fallback");
-        break;
-      case AnalysisEngineMetaData::LANGUAGE_FALLBACK:
-        s.append("language_fallback");
-        break;
-      case AnalysisEngineMetaData::NONE:
-        s.append("none");
-        break;
+    AnalysisEngineMetaData::TyConfigGroup const & confGroups = md.iv_configurationGroups;
+    AnalysisEngineMetaData::TyConfigGroup::const_iterator git = confGroups.find(md.CONFIG_GROUP_NAME_WHEN_NO_GROUPS);
+    if (git != confGroups.end()) {
+      appendConfigGroupToXMLBuffer( (*git).second, s);
+    }
+    git = confGroups.find(md.CONFIG_GROUP_NAME_COMMON_PARMS);
+    if (git != confGroups.end()) {
+      s.append("<commonParameters>");
+      appendConfigGroupToXMLBuffer( (*git).second, s);
+      s.append("</commonParameters>");
+    }
+    for (git = confGroups.begin(); git != confGroups.end(); ++git) {
+      icu::UnicodeString const & confGroupName = (*git).first;
+      if (confGroupName == md.CONFIG_GROUP_NAME_WHEN_NO_GROUPS || confGroupName == md.CONFIG_GROUP_NAME_COMMON_PARMS) {
+        continue;
       }
+      s.append("<configurationGroup names=\"");
+      appendText(confGroupName, s);
       s.append("\">");
-
-      AnalysisEngineMetaData::TyConfigGroup const & confGroups = md.iv_configurationGroups;
-      assert( confGroups.find(md.CONFIG_GROUP_NAME_WHEN_NO_GROUPS) == confGroups.end() );
-      AnalysisEngineMetaData::TyConfigGroup::const_iterator cit;
-      for ( cit = confGroups.begin(); cit != confGroups.end(); ++cit) {
-        icu::UnicodeString const & confGroupName = (*cit).first;
-        ConfigurationGroup const & confGroup = (*cit).second;
-        bool common = ( confGroupName == md.CONFIG_GROUP_NAME_COMMON_PARMS);
-        if (common) {
-          s.append("<commonParameters>");
-        } else {
-          s.append("<configurationGroup names=\"");
-          s.append(confGroupName);
-          s.append("\">");
-        }
-
-        appendConfigGroupToXMLBuffer( confGroup, s);
-
-        if (common) {
-          s.append("</commonParameters>");
-        } else {
-          s.append("</configurationGroup>");
-        }
-      }
-      s.append("</configurationParameters>");
-
-    } else {
-      s.append("<configurationParameters>");
-      AnalysisEngineMetaData::TyConfigGroup const & confGroups = md.iv_configurationGroups;
-      assert( confGroups.find(md.CONFIG_GROUP_NAME_COMMON_PARMS) == confGroups.end() );
-      if (confGroups.size() > 0) {
-        assert( confGroups.size() == 1);
-        AnalysisEngineMetaData::TyConfigGroup::const_iterator cit = confGroups.find(md.CONFIG_GROUP_NAME_WHEN_NO_GROUPS);
-        assert( cit != confGroups.end() );
-        appendConfigGroupToXMLBuffer( (*cit).second, s);
-      }
-      s.append("</configurationParameters>");
+      appendConfigGroupToXMLBuffer( (*git).second, s);
+      s.append("</configurationGroup>");
     }
+    s.append("</configurationParameters>");
 
-
-    s.append("<configurationParameterSettings>");
     // config param settings
-    if (md.hasGroups()) {
-      AnalysisEngineMetaData::TyConfigSettings const & confSettings = md.iv_configurationSettings;
-      AnalysisEngineMetaData::TyConfigSettings::const_iterator cit;
-      for (cit = confSettings.begin(); cit != confSettings.end(); ++cit) {
-        icu::UnicodeString const & groupName = (*cit).first;
-        SettingsForGroup const & settings = (*cit).second;
-
-        s.append("<settingsForGroup name=\"");
-        s.append(groupName);
-        s.append("\">");
-        appendConfigGroupSettingsToXMLBuffer(settings, s);
-        s.append("</settingsForGroup>");
-      }
-
-    } else {
-      AnalysisEngineMetaData::TyConfigSettings const & confSettings = md.iv_configurationSettings;
-      if (confSettings.size() > 0) {
-        assert( confSettings.size() == 1);
-        AnalysisEngineMetaData::TyConfigSettings::const_iterator cit = confSettings.find(md.CONFIG_GROUP_NAME_WHEN_NO_GROUPS);
-        assert( cit != confSettings.end() );
-        appendConfigGroupSettingsToXMLBuffer( (*cit).second, s);
+    s.append("<configurationParameterSettings>");
+    AnalysisEngineMetaData::TyConfigSettings const & confSettings = md.iv_configurationSettings;
+    AnalysisEngineMetaData::TyConfigSettings::const_iterator sit = confSettings.find(md.CONFIG_GROUP_NAME_WHEN_NO_GROUPS);
+    if (sit != confSettings.end()) {
+      appendConfigGroupSettingsToXMLBuffer( (*sit).second, s);
+    }
+    for (sit = confSettings.begin(); sit != confSettings.end(); ++sit) {
+      icu::UnicodeString const & groupName = (*sit).first;
+      if (groupName == md.CONFIG_GROUP_NAME_WHEN_NO_GROUPS) {
+        continue;
       }
+      s.append("<settingsForGroup name=\"");
+      appendText(groupName, s);
+      s.append("\">");
+      appendConfigGroupSettingsToXMLBuffer( (*sit).second, s);
+      s.append("</settingsForGroup>");
     }
     s.append("</configurationParameterSettings>");
-
-
   }
 
 
-
-
   void AnalysisEngineDescription::toXMLBufferNoXMLHeader(icu::UnicodeString & s) const {
-    size_t i;
     bool isCasConsumer=false;
     if ( getXmlRootTag().compare("casConsumerDescription") == 0) {
       isCasConsumer=true;
@@ -1120,7 +1089,7 @@ namespace uima {
 
     if (isCasConsumer) {
       s.append("<implementationName>");
-      s.append(getAnnotatorImpName());
+      appendText(getAnnotatorImpName(), s);
       s.append("</implementationName>");
     }
     // primitive
@@ -1133,7 +1102,7 @@ namespace uima {
       if (isPrimitive()) {
         // annotator implementation
         s.append("<annotatorImplementationName>");
-        s.append(getAnnotatorImpName());
+        appendText(getAnnotatorImpName(), s);
         s.append("</annotatorImplementationName>");
       } else {
         // delegates
@@ -1142,7 +1111,7 @@ namespace uima {
         TyMapDelegateSpecs::const_iterator cit;
         for (cit = delegates.begin(); cit != delegates.end(); ++cit) {
           s.append("<delegateAnalysisEngine key=\"");
-          s.append( (*cit).first );
+          appendText((*cit).first, s);
           s.append("\">");
           icu::UnicodeString delBuf;
           (*cit).second->toXMLBufferNoXMLHeader(delBuf);
@@ -1155,29 +1124,8 @@ namespace uima {
 
 	toXMLBuffer( *(getAnalysisEngineMetaData()), isCasConsumer, s);
 
-	if (!isCasConsumer) {
-      TyVecpSofaMappings const & sofamappingVec = getSofaMappings();
-      if (sofamappingVec.size() >  0) {
-        s.append("<sofaMappings>");
-        for (i=0; i<sofamappingVec.size(); ++i) {
-          s.append("<sofaMapping>");
-          s.append("<componentKey>");
-          s.append(sofamappingVec[i]->getComponentKey());
-          s.append("</componentKey>");
-
-          s.append("<componentSofaName>");
-          s.append(sofamappingVec[i]->getComponentSofaName());
-          s.append("</componentSofaName>");
-
-          s.append("<aggregateSofaName>");
-          s.append(sofamappingVec[i]->getAggregateSofaName());
-          s.append("</aggregateSofaName>");
-
-          s.append("</sofaMapping>");
-        }
-        s.append("</sofaMappings>");
-      }
-    }
+    // sofa mappings
+    appendToXMLBuffer(getSofaMappings(), s);
 
     s.append("</");
     s.append(getXmlRootTag());
@@ -1200,168 +1148,44 @@ namespace uima {
     ///AnalysisEngineMetaData const & md = * getAnalysisEngineMetaData();
     
     //    name
-    icu::UnicodeString out;
     s.append("<name>");
-    XMLWriterABase::normalize(UnicodeStringRef(md.getName()), out);
-    s.append(out);
+      appendText(md.getName(), s);
     s.append("</name>");
 
     //   description
     s.append("<description>");
-    out.setTo("");
-    XMLWriterABase::normalize(UnicodeStringRef(md.getDescription()), out);
-    s.append( out );
+      appendText(md.getDescription(), s);
     s.append("</description>");
 
     //   version
     s.append("<version>");
-    s.append( md.getVersion() );
+    appendText(md.getVersion(), s);
     s.append("</version>");
 
     //   vendor
     s.append("<vendor>");
-    out.setTo("");
-     XMLWriterABase::normalize(UnicodeStringRef(md.getVendor()), out);
-    s.append( out );
+      appendText(md.getVendor(), s);
     s.append("</vendor>");
 
 
-    // config params
-    if (md.hasGroups()) {
-      s.append("<configurationParameters");
-
-      if (md.hasDefaultGroup()) {
-        s.append(" defaultGroup=\"");
-        s.append( md.iv_defaultGroup );
-        s.append("\"");
-      }
-
-      s.append(" searchStrategy=\"");
-      AnalysisEngineMetaData::EnSearchStrategy searchStrategy = md.getSearchStrategy();
-      switch (searchStrategy) {
-      case AnalysisEngineMetaData::DEFAULT_FALLBACK:
-        s.append("default_fallback");
-        break;
-      case AnalysisEngineMetaData::LANGUAGE_FALLBACK:
-        s.append("language_fallback");
-        break;
-      case AnalysisEngineMetaData::NONE:
-        s.append("none");
-        break;
-      }
-      s.append("\">");
-
-      AnalysisEngineMetaData::TyConfigGroup const & confGroups = md.iv_configurationGroups;
-      assert( confGroups.find(md.CONFIG_GROUP_NAME_WHEN_NO_GROUPS) == confGroups.end() );
-      AnalysisEngineMetaData::TyConfigGroup::const_iterator cit;
-      for ( cit = confGroups.begin(); cit != confGroups.end(); ++cit) {
-        icu::UnicodeString const & confGroupName = (*cit).first;
-        ConfigurationGroup const & confGroup = (*cit).second;
-        bool common = ( confGroupName == md.CONFIG_GROUP_NAME_COMMON_PARMS);
-        if (common) {
-          s.append("<commonParameters>");
-        } else {
-          s.append("<configurationGroup names=\"");
-          s.append(confGroupName);
-          s.append("\">");
-        }
-
-        appendConfigGroupToXMLBuffer( confGroup, s);
-
-        if (common) {
-          s.append("</commonParameters>");
-        } else {
-          s.append("</configurationGroup>");
-        }
-      }
-      s.append("</configurationParameters>");
-
-    } else {
-      s.append("<configurationParameters>");
-      AnalysisEngineMetaData::TyConfigGroup const & confGroups = md.iv_configurationGroups;
-      assert( confGroups.find(md.CONFIG_GROUP_NAME_COMMON_PARMS) == confGroups.end() );
-      if (confGroups.size() > 0) {
-        assert( confGroups.size() == 1);
-        AnalysisEngineMetaData::TyConfigGroup::const_iterator cit = confGroups.find(md.CONFIG_GROUP_NAME_WHEN_NO_GROUPS);
-        assert( cit != confGroups.end() );
-        appendConfigGroupToXMLBuffer( (*cit).second, s);
-      }
-      s.append("</configurationParameters>");
-    }
-
-
-    s.append("<configurationParameterSettings>");
-    // config param settings
-    if (md.hasGroups()) {
-      AnalysisEngineMetaData::TyConfigSettings const & confSettings = md.iv_configurationSettings;
-      AnalysisEngineMetaData::TyConfigSettings::const_iterator cit;
-      for (cit = confSettings.begin(); cit != confSettings.end(); ++cit) {
-        icu::UnicodeString const & groupName = (*cit).first;
-        SettingsForGroup const & settings = (*cit).second;
-
-        s.append("<settingsForGroup name=\"");
-        s.append(groupName);
-        s.append("\">");
-        appendConfigGroupSettingsToXMLBuffer(settings, s);
-        s.append("</settingsForGroup>");
-      }
-
-    } else {
-      AnalysisEngineMetaData::TyConfigSettings const & confSettings = md.iv_configurationSettings;
-      if (confSettings.size() > 0) {
-        assert( confSettings.size() == 1);
-        AnalysisEngineMetaData::TyConfigSettings::const_iterator cit = confSettings.find(md.CONFIG_GROUP_NAME_WHEN_NO_GROUPS);
-        assert( cit != confSettings.end() );
-        appendConfigGroupSettingsToXMLBuffer( (*cit).second, s);
-      }
-    }
-    s.append("</configurationParameterSettings>");
+    appendConfigParamsAndSettingsToXMLBuffer(md, s);
 
     // flow constraints
-    if (!isPrimitive()) {
+    FlowConstraints * flow = CONST_CAST(FlowConstraints *, md.getFlowConstraints());
+    if (flow != NULL) {
+      bool fixed = flow->getFlowConstraintsType() == FlowConstraints::FIXED;
       s.append("<flowConstraints>");
-      FlowConstraints const * pFlow = md.getFlowConstraints();
-      FlowConstraints * flow = CONST_CAST(FlowConstraints *, pFlow);
-      if (flow->getFlowConstraintsType() == FlowConstraints::FIXED) {
-        s.append("<fixedFlow>");
-      } else if (flow->getFlowConstraintsType() == FlowConstraints::CAPABILITYLANGUAGE) {
-        s.append("<capabilityLanguageFlow>");
-      }
+      s.append(fixed ? "<fixedFlow>" : "<capabilityLanguageFlow>");
       vector<icu::UnicodeString> const & v = flow->getNodes();
       for (i=0; i<v.size(); ++i) {
         s.append("<node>");
-        s.append(v[i]);
+        appendText(v[i], s);
         s.append("</node>");
       }
-      if (flow->getFlowConstraintsType() == FlowConstraints::FIXED) {
-        s.append("</fixedFlow>");
-      }  else if (flow->getFlowConstraintsType() == FlowConstraints::CAPABILITYLANGUAGE) {
-        s.append("</capabilityLanguageFlow>");
-      }
-
+      s.append(fixed ? "</fixedFlow>" : "</capabilityLanguageFlow>");
       s.append("</flowConstraints>");
     }
 
-    //type priorites
-    const AnalysisEngineMetaData::TyVecpTypePriorities  & prioDesc =  
-                    md.getTypePriorities();
-     if (prioDesc.size() > 0) {
-      s.append("<typePriorities>");
-      for (i=0; i<prioDesc.size() ;++i) {
-        s.append("<priorityList>");
-        TypePriority * prio = prioDesc[i];
-        vector <icu::UnicodeString> vecTypeOrder = prio->getTypeOrder();
-        for ( j = 0; j < vecTypeOrder.size();  ++j) {
-
-          s.append("<type>");
-          s.append(vecTypeOrder[j]);
-          s.append("</type>");
-        }
-        s.append("</priorityList>");
-      }
-      s.append("</typePriorities>");
-    }
-
     // type system
 
       s.append("<typeSystemDescription>");
@@ -1373,11 +1197,11 @@ namespace uima {
           ImportDescription const * pImport = importVec[i];
           if ( pImport->getName().length() > 0) {
             s.append("<import name=\"");
-            s.append(pImport->getName());
+            appendText(pImport->getName(), s);
             s.append("\"/>");
           } else {
             s.append("<import location=\"");
-            s.append(pImport->getLocation());
+            appendText(pImport->getLocation(), s);
             s.append("\"/>");
           }
         }
@@ -1388,17 +1212,15 @@ namespace uima {
           TypeDescription const * td = tdVec[i];
           s.append("<typeDescription>");
           s.append("<name>");
-          s.append(td->getName());
+          appendText(td->getName(), s);
           s.append("</name>");
 
           s.append("<description>");
-          out.setTo("");
-          XMLWriterABase::normalize(UnicodeStringRef(td->getDescription()), out);
-          s.append(out);
+      appendText(td->getDescription(), s);
           s.append("</description>");
 
           s.append("<supertypeName>");
-          s.append(td->getSuperTypeName());
+          appendText(td->getSuperTypeName(), s);
           s.append("</supertypeName>");
 
           TypeDescription::TyVecpFeatureDescriptions const & fdVec = td->getFeatureDescriptions();
@@ -1408,19 +1230,17 @@ namespace uima {
               FeatureDescription const * fs = fdVec[j];
               s.append("<featureDescription>");
               s.append("<name>");
-              s.append(fs->getName());
+              appendText(fs->getName(), s);
               s.append("</name>");
               s.append("<description>");
-              out.setTo("");
-              XMLWriterABase::normalize(UnicodeStringRef(fs->getDescription()), out);
-              s.append(out);
+      appendText(fs->getDescription(), s);
               s.append("</description>");
               s.append("<rangeTypeName>");
-              s.append(fs->getRangeTypeName());
+              appendText(fs->getRangeTypeName(), s);
               s.append("</rangeTypeName>");
               if (0 < fs->getElementType().length() ) {
                 s.append("<elementType>");
-                s.append(fs->getElementType());
+                appendText(fs->getElementType(), s);
                 s.append("</elementType>");
               }
               if (fs->isMultipleReferencesAllowed() ) {
@@ -1440,12 +1260,10 @@ namespace uima {
               AllowedValue const * value = allowVec[j];
               s.append("<value>");
               s.append("<string>");
-              s.append(value->getName());
+              appendText(value->getName(), s);
               s.append("</string>");
               s.append("<description>");
-              out.setTo("");
-              XMLWriterABase::normalize(UnicodeStringRef(value->getDescription()), out);
-              s.append(out);
+      appendText(value->getDescription(), s);
               s.append("</description>");
               s.append("</value>");
             }
@@ -1457,6 +1275,9 @@ namespace uima {
       }
       s.append("</types></typeSystemDescription>");
 
+    //type priorites
+    appendToXMLBuffer(md.getTypePriorities(), s);
+
     //fsIndexCollection
     s.append("<fsIndexCollection>");
     //fsIndexCollection -- imports
@@ -1467,11 +1288,11 @@ namespace uima {
         ImportDescription const * pImport = ixImportVec[i];
         if ( pImport->getName().length() > 0) {
           s.append("<import name=\"");
-          s.append(pImport->getName());
+          appendText(pImport->getName(), s);
           s.append("\"/>");
         } else {
           s.append("<import location=\"");
-          s.append(pImport->getLocation());
+          appendText(pImport->getLocation(), s);
           s.append("\"/>");
         }
       }
@@ -1479,71 +1300,7 @@ namespace uima {
     }
 
     // fs indexes
-    s.append("<fsIndexes>");
-    AnalysisEngineMetaData::TyVecpFSIndexDescriptions const & ixVec = md.getFSIndexDescriptions();
-    for (i=0; i<ixVec.size(); ++i) {
-      FSIndexDescription const * ixDesc = ixVec[i];
-      s.append("<fsIndexDescription>");
-      s.append("<label>");
-      s.append(ixDesc->getLabel());
-      s.append("</label>");
-      s.append("<typeName>");
-      s.append(ixDesc->getTypeName());
-      s.append("</typeName>");
-      s.append("<kind>");
-      FSIndexDescription::EnIndexKind ixKind = ixDesc->getIndexKind();
-      switch (ixKind) {
-      case FSIndexDescription::BAG:
-        s.append("bag");
-        break;
-      case FSIndexDescription::SET:
-        s.append("set");
-        break;
-      case FSIndexDescription::SORTED:
-        s.append("sorted");
-        break;
-      default:
-        assert(false);
-      }
-      s.append("</kind>");
-
-      FSIndexDescription::TyVecpFSIndexKeys const & keyVec = ixDesc->getFSIndexKeys();
-      if (keyVec.size() > 0) {
-        s.append("<keys>");
-        for (j=0; j<keyVec.size(); ++j) {
-          s.append("<fsIndexKey>");
-          FSIndexKeyDescription const * ixKeyDesc = keyVec[j];
-          if (ixKeyDesc->isTypePriority() ) {
-            s.append("<typePriority/>");
-          } else {
-            s.append("<featureName>");
-            s.append(ixKeyDesc->getFeatureName());
-            s.append("</featureName>");
-
-            s.append("<comparator>");
-            FSIndexKeyDescription::EnComparatorType comp = ixKeyDesc->getComparator();
-            switch (comp) {
-            case FSIndexKeyDescription::STANDARD:
-              s.append("standard");
-              break;
-            case FSIndexKeyDescription::REVERSE:
-              s.append("reverse");
-              break;
-            default:
-              assert(false);
-            }
-            s.append("</comparator>");
-          }
-          s.append("</fsIndexKey>");
-        }
-        s.append("</keys>");
-      }
-
-      s.append("</fsIndexDescription>");
-    }
-
-    s.append("</fsIndexes>");
-
+    appendToXMLBuffer(md.getFSIndexDescriptions(), s);
     s.append("</fsIndexCollection>");
 
     // capabilities
@@ -1574,7 +1331,7 @@ namespace uima {
       Capability::TyVecCapabilityLanguages const & suppLangVec = cap->getSupportedLanguages();
       for (j=0; j<suppLangVec.size(); ++j) {
         s.append("<language>");
-        s.append(suppLangVec[j]);
+        appendText(suppLangVec[j], s);
         s.append("</language>");
       }
       s.append("</languagesSupported>");
diff --git a/src/framework/uima/config_param.hpp b/src/framework/uima/config_param.hpp
index f552377..94d1005 100644
--- a/src/framework/uima/config_param.hpp
+++ b/src/framework/uima/config_param.hpp
@@ -133,6 +133,11 @@ namespace uima {
     /*          return(iv_vecRestrictedToDelegates.size() != 0); */
     /*       }                                                   */
 
+    /// The keys of the delegates this parameter may override, none if it is not restricted.
+    std::vector<icu::UnicodeString> const & getRestriction() const {
+      return iv_vecRestrictedToDelegates;
+    }
+
     /**
     * Settings for this configuration parameter will only be visible 
     * for the delegate AnC <code>delegateName</code> 
diff --git a/src/framework/uima/taespecifier.hpp b/src/framework/uima/taespecifier.hpp
index f74945f..f54288a 100644
--- a/src/framework/uima/taespecifier.hpp
+++ b/src/framework/uima/taespecifier.hpp
@@ -1113,6 +1113,7 @@ namespace uima {
 													   bool isCasConsumer,
 													   icu::UnicodeString & s) const;
 	void appendConfigParamsAndSettingsToXMLBuffer(icu::UnicodeString & s) const;
+	void appendConfigParamsAndSettingsToXMLBuffer(AnalysisEngineMetaData const & md, icu::UnicodeString & s) const;
 
     TyErrorId setFrameworkImplName(EnFrameworkImplName impl) {
       if (! isModifiable()) {
@@ -1132,13 +1133,13 @@ namespace uima {
 
   protected:
     void appendToXMLBuffer(AnalysisEngineMetaData::TyVecpFSIndexDescriptions const & fsDesc,
-                           icu::UnicodeString & s);
+                           icu::UnicodeString & s) const;
 
     void appendToXMLBuffer(AnalysisEngineMetaData::TyVecpTypePriorities const  & prioDesc,
-                           icu::UnicodeString & s);
+                           icu::UnicodeString & s) const;
 
     void appendToXMLBuffer(TyVecpSofaMappings const & sofaMapDesc,
-                           icu::UnicodeString & s);
+                           icu::UnicodeString & s) const;
 
   private:
     AnalysisEngineDescription(AnalysisEngineDescription const & crOther);
-- 
2.43.0


From 5358d182b06b39246f5d664e3c152108215cc123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:05 +0000
Subject: [PATCH 097/143] fix: check configuration settings against the
 declared parameters

---
 src/framework/taespecifier.cpp        | 96 ++++++++++++---------------
 src/framework/taespecifierbuilder.cpp | 45 ++++++++++++-
 src/framework/uima/config_param.hpp   | 14 +++-
 src/framework/uima/taespecifier.hpp   |  3 +
 4 files changed, 102 insertions(+), 56 deletions(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index 30c826f..4af4239 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -243,7 +243,8 @@ namespace uima {
 
   void AnalysisEngineMetaData::addNameValuePair(const icu::UnicodeString & groupName,
       NameValuePair * nvPair) {
-    if (! isParameterDefined(groupName, nvPair->getName(), "")) {
+    ConfigurationParameter const * pConfigParm = findConfigurationParameter(groupName, nvPair->getName());
+    if (! EXISTS(pConfigParm)) {
       const icu::UnicodeString & paramName = nvPair->getName();
       if (hasGroups()) {
         ErrorMessage msg(UIMA_MSG_ID_EXC_CONFIG_PARAM_NOT_DEFINED_IN_GROUP);
@@ -262,6 +263,14 @@ namespace uima {
                            ErrorInfo::recoverable);
       }
     }
+    nvPair->adaptEmptyArray(*pConfigParm);
+    if (! nvPair->hasTypeOf(*pConfigParm)) {
+      UIMA_EXC_THROW_NEW(ConfigException,
+                         UIMA_ERR_CONFIG_INVALID_TYPE_FOR_PARAM,
+                         UIMA_MSG_ID_EXC_CONFIG_VALUE_TYPE_MISMATCH,
+                         ErrorMessage(UIMA_MSG_ID_EXCON_CONFIG_PARAM_SEARCH, nvPair->getName()),
+                         ErrorInfo::recoverable);
+    }
     TyConfigSettings::iterator ite = iv_configurationSettings.find(groupName);
     if (ite == iv_configurationSettings.end()) {
       iv_configurationSettings [groupName] = SettingsForGroup();
@@ -428,36 +437,14 @@ namespace uima {
     if (ite == iv_configurationGroups.end()) {
       return UIMA_ERR_CONFIG_INVALID_GROUP_NAME;
     }
-    const ConfigurationParameter * pConfigParm = NULL;
-
     //now check whether the parameter is defined in the group
     //or in the common parameters
-    const ConfigurationGroup & confGroup = ite->second;
-
-    if (confGroup.hasConfigurationParameter(paramName)) {
-      pConfigParm = confGroup.getConfigurationParameter(paramName);
-    } else {
-      //check in the common parameters
-      ite = iv_configurationGroups.find(CONFIG_GROUP_NAME_COMMON_PARMS);
-      if (ite == iv_configurationGroups.end()) { //there are no common parameters
-        return UIMA_ERR_CONFIG_INVALID_PARAM_NAME;
-      }
-      const ConfigurationGroup & commonGroup = ite->second;
-      if (commonGroup.hasConfigurationParameter(paramName)) {
-        pConfigParm = commonGroup.getConfigurationParameter(paramName);
-      } else {
-        return UIMA_ERR_CONFIG_INVALID_PARAM_NAME;
-      }
+    const ConfigurationParameter * pConfigParm = findConfigurationParameter(groupName, paramName);
+    if (! EXISTS(pConfigParm)) {
+      return UIMA_ERR_CONFIG_INVALID_PARAM_NAME;
     }
-
-    assert(EXISTS(pConfigParm));
     //check if types and multiplicity match
-    if (pConfigParm->getType() != nvPair.getType()) {
-      return UIMA_ERR_CONFIG_INVALID_TYPE_FOR_PARAM;
-    }
-    if ((pConfigParm->isMultiValued() && (! nvPair.isMultiValued())
-         || ((! pConfigParm->isMultiValued() && nvPair.isMultiValued())))
-       ) {
+    if (! nvPair.hasTypeOf(*pConfigParm)) {
       return UIMA_ERR_CONFIG_INVALID_TYPE_FOR_PARAM;
     }
 
@@ -472,12 +459,17 @@ namespace uima {
       vector < icu::UnicodeString> & fallbackGroups) {
     int i;
     bool cutOffPossible;
+    if (! hasGroups()) {
+      return; //nothing to fall back to
+    }
     switch (strategy) {
     case NONE:
       //nothing to be done
       break;
     case DEFAULT_FALLBACK:
-      fallbackGroups.push_back(getDefaultGroupName());
+      if (hasDefaultGroup()) {
+        fallbackGroups.push_back(getDefaultGroupName());
+      }
       break;
     case LANGUAGE_FALLBACK:
       i=groupName.lastIndexOf("-");
@@ -489,7 +481,9 @@ namespace uima {
         i=groupName.lastIndexOf("-", 0,i);
         cutOffPossible = (i != -1);
       }
-      fallbackGroups.push_back(getDefaultGroupName());
+      if (hasDefaultGroup()) {
+        fallbackGroups.push_back(getDefaultGroupName());
+      }
       break;
     default:
       assert(false);
@@ -511,33 +505,30 @@ namespace uima {
   bool AnalysisEngineMetaData::isParameterDefined(const icu::UnicodeString & groupName,
       const icu::UnicodeString & paramName,
       const icu::UnicodeString & ancKey) const {
-    //check if it's defined in the group groupName
+    const ConfigurationParameter * pConfigParm = findConfigurationParameter(groupName, paramName);
+    return EXISTS(pConfigParm) && pConfigParm->isDefinedForAnnotatorContext(ancKey);
+  }
+
+  /**
+  * returns the definition of the parameter in group groupName, or else in the commonParameter section,
+  * or NULL.
+  **/
+  const ConfigurationParameter * AnalysisEngineMetaData::findConfigurationParameter(const icu::UnicodeString & groupName,
+      const icu::UnicodeString & paramName) const {
+    const ConfigurationParameter * pConfigParm = NULL;
     TyConfigGroup::const_iterator ite = iv_configurationGroups.find(groupName);
     if (ite != iv_configurationGroups.end()) {
-      const ConfigurationGroup & group = ite->second;
-      const ConfigurationParameter * pConfigParm = group.getConfigurationParameter(paramName);
-      if (EXISTS(pConfigParm)) { //the parameter exists
-        return pConfigParm->isDefinedForAnnotatorContext(ancKey);
-      }
-      /*          if (group.hasConfigurationParameter(paramName)) { */
-      /*             return true;                                   */
-      /*          }                                                 */
+      pConfigParm = ite->second.getConfigurationParameter(paramName);
     }
-    //either the group does not exist or it doesn't define the parameter
-    //we check in the common parameters
-    ite = iv_configurationGroups.find(CONFIG_GROUP_NAME_COMMON_PARMS);
-    if (ite != iv_configurationGroups.end()) {
-      const ConfigurationGroup & group = ite->second;
-      const ConfigurationParameter * pConfigParm = group.getConfigurationParameter(paramName);
-      if (EXISTS(pConfigParm)) { //the parameter exists
-        return pConfigParm->isDefinedForAnnotatorContext(ancKey);
-      } else {
-        return false;
+    if (! EXISTS(pConfigParm)) {
+      //either the group does not exist or it doesn't define the parameter
+      //we check in the common parameters
+      ite = iv_configurationGroups.find(CONFIG_GROUP_NAME_COMMON_PARMS);
+      if (ite != iv_configurationGroups.end()) {
+        pConfigParm = ite->second.getConfigurationParameter(paramName);
       }
-      //return group.hasConfigurationParameter(paramName);
-    } else {
-      return false;
     }
+    return pConfigParm;
   }
 
   const vector <icu::UnicodeString> AnalysisEngineMetaData::getConfigurationGroupNames() const {
@@ -587,7 +578,8 @@ namespace uima {
         groups.push_back(*ite);
       }
     }
-    if (isParameterDefined(CONFIG_GROUP_NAME_COMMON_PARMS, paramName, "") && hasDefaultGroup()) {
+    if (isParameterDefined(CONFIG_GROUP_NAME_COMMON_PARMS, paramName, "") && hasDefaultGroup()
+        && iv_configurationGroups.find(getDefaultGroupName()) == iv_configurationGroups.end()) {
       groups.push_back(getDefaultGroupName());
     }
     return groups;
diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index de77610..3f0d1a0 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -39,6 +39,10 @@
 #include "uima/typesystem.hpp"
 //#define DEBUG_VERBOSE
 
+#include <errno.h>
+#include <limits.h>
+#include <stdlib.h>
+
 #include "xercesc/util/PlatformUtils.hpp"
 #include "xercesc/parsers/XercesDOMParser.hpp"
 #include "xercesc/parsers/SAXParser.hpp"
@@ -822,7 +826,7 @@ namespace uima {
         //check for duplicate name value pairs
         //as a side effect, this also ensures that all name value pairs are defined
         //as configuration parameters
-        if (EXISTS(aeMetadata.getNameValuePair(nvPair->getName()))) {
+        if (EXISTS(aeMetadata.getNameValuePairNoFallback(aeMetadata.getGroupNameWhenNotSpec(), nvPair->getName(), ""))) {
           ErrorMessage msg(UIMA_MSG_ID_EXC_CONFIG_DUPLICATE_NAME_VALUE_PAIR);
           msg.addParam(nvPair->getName());
           UIMA_EXC_THROW_NEW(DuplicateConfigElemException,
@@ -883,6 +887,34 @@ namespace uima {
     return nvPair.release();
   }
 
+  static void throwInvalidValue(NameValuePair const & nvPair, icu::UnicodeString const & value) {
+    ErrorMessage msg(UIMA_MSG_ID_LITERAL_STRING, icu::UnicodeString("The value '") + value
+                     + "' of the configuration parameter '" + nvPair.getName() + "' is not of the type of its element or array.");
+    UIMA_EXC_THROW_NEW(InvalidXMLException,
+                       UIMA_ERR_CONFIG_INVALID_TYPE_FOR_PARAM,
+                       msg,
+                       UIMA_MSG_ID_EXCON_BUILD_TAE_SPEC,
+                       ErrorInfo::unrecoverable);
+  }
+
+  /* Rejects text which is not a number where a number is required. */
+  static void checkValue(NameValuePair const & nvPair, icu::UnicodeString const & value) {
+    std::string text(UnicodeStringRef(value).asUTF8());
+    char * end = NULL;
+    bool valid = true;
+    if (nvPair.getType() == ConfigurationParameter::INTEGER) {
+      errno = 0;
+      long number = strtol(text.c_str(), &end, 10);
+      valid = errno == 0 && number >= INT_MIN && number <= INT_MAX && end != text.c_str() && *end == 0;
+    } else if (nvPair.getType() == ConfigurationParameter::FLOAT) {
+      strtod(text.c_str(), &end);
+      valid = end != text.c_str() && *end == 0;
+    }
+    if (!valid) {
+      throwInvalidValue(nvPair, value);
+    }
+  }
+
   void XMLParser::buildValue(NameValuePair & nvPair, DOMElement * descElem) {
     assert(EXISTS(descElem));
     checkElement(descElem, TAG_NAME_VALUE_PAIR_VALUE);
@@ -903,17 +935,24 @@ namespace uima {
         DOMNodeList * arrayEntries = child->getChildNodes();
         assert( EXISTS(arrayEntries) );
         //the type must be the same for all elements in the array
-        nvPair.define(findTypeForValue(findFirstElementNode(arrayEntries)), ConfigurationParameter::MULTIPLE_VALUES);
+        DOMElement * firstEntry = findFirstElementNode(arrayEntries);
+        //the type of an empty array is the one declared for the parameter
+        nvPair.define(EXISTS(firstEntry) ? findTypeForValue(firstEntry) : ConfigurationParameter::STRING, ConfigurationParameter::MULTIPLE_VALUES);
         //now iterate over entries, adding the values
         size_t j;
         for (j=0; j < arrayEntries->getLength(); j++) {
           if ((arrayEntries->item(j))->getNodeType() != DOMNode::ELEMENT_NODE) {
             continue;
           }
+          if (findTypeForValue(arrayEntries->item(j)) != nvPair.getType()) {
+            throwInvalidValue(nvPair, getSpannedText(arrayEntries->item(j)));
+          }
+          checkValue(nvPair, getSpannedText(arrayEntries->item(j)));
           nvPair.addValue(getSpannedText(arrayEntries->item(j)));
         }
       } else {
         nvPair.define(findTypeForValue(child), ConfigurationParameter::SINGLE_VALUE); // findFirstElementNode(child->getChildNodes())));
+        checkValue(nvPair, getSpannedText(child));
         nvPair.setValue(getSpannedText(child));
       }
     }
@@ -2157,7 +2196,7 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
   bool XMLParser::isTrue(const icu::UnicodeString & value) const {
     /*       cout << "Buffer:" << convert(cpUCBuf) << endl;                       */
     /*       return(XMLString::compareString(cpUCBuf, convert(TRUE_VALUE)) == 0); */
-    return(value.compare(TRUE_VALUE) == 0);
+    return(value.compare(TRUE_VALUE) == 0 || value.compare("1") == 0);
   }
 
   XMLCh const * XMLParser::convert(char const * cpBuf) const {
diff --git a/src/framework/uima/config_param.hpp b/src/framework/uima/config_param.hpp
index 94d1005..756d530 100644
--- a/src/framework/uima/config_param.hpp
+++ b/src/framework/uima/config_param.hpp
@@ -61,7 +61,7 @@ namespace uima {
       SINGLE_VALUE = false, MULTIPLE_VALUES = true
     };
     ConfigurationParameter()
-        :MetaDataObject(), iv_name(), iv_description(), iv_enParamAggregation(SINGLE_VALUE),
+        :MetaDataObject(), iv_name(), iv_description(), iv_enParamType(STRING), iv_enParamAggregation(SINGLE_VALUE),
         iv_mandatory(false), iv_vecRestrictedToDelegates() {}
 
 
@@ -209,6 +209,18 @@ namespace uima {
       return(iv_enAggregation == ConfigurationParameter::MULTIPLE_VALUES);
     }
 
+    /// Returns true iff type and multiplicity are those declared for the parameter.
+    bool hasTypeOf(const ConfigurationParameter & param) const {
+      return iv_enType == param.getType() && isMultiValued() == param.isMultiValued();
+    }
+
+    /// Gives an array without elements the type which is declared for the parameter.
+    void adaptEmptyArray(const ConfigurationParameter & param) {
+      if (isMultiValued() && size() == 0 && param.isMultiValued()) {
+        define(param.getType(), ConfigurationParameter::MULTIPLE_VALUES);
+      }
+    }
+
     ConfigurationParameter::EnParameterType getType() const {
       return iv_enType;
     }
diff --git a/src/framework/uima/taespecifier.hpp b/src/framework/uima/taespecifier.hpp
index f54288a..f332958 100644
--- a/src/framework/uima/taespecifier.hpp
+++ b/src/framework/uima/taespecifier.hpp
@@ -707,6 +707,9 @@ namespace uima {
 
     AnalysisEngineMetaData & operator=(AnalysisEngineMetaData const & crOther);
 
+    const ConfigurationParameter * findConfigurationParameter(const icu::UnicodeString & groupName,
+        const icu::UnicodeString & paramName) const;
+
     const icu::UnicodeString & getDefaultGroupName() const {
       return(iv_defaultGroup);
     }
-- 
2.43.0


From 0648ddd09de37509ed6dd26a92ce5a59f9433685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:17 +0000
Subject: [PATCH 098/143] fix: validate flow constraints

---
 src/framework/taespecifier.cpp          | 25 +++++++++++++++++++++++--
 src/framework/typesystemdescription.cpp |  2 +-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index 4af4239..7d10c0c 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -97,7 +97,7 @@ namespace uima {
       if ( !(EXISTS(indexDescs[i])) ){
 			UIMA_EXC_THROW_NEW(ValidationException,
                            UIMA_ERR_CONFIG_OBJECT_NOT_FOUND,
-                           ErrorMessage(UIMA_MSG_ID_EXC_INVALID_INDEX_OBJECT, indexLabels[i]),
+                           ErrorMessage(UIMA_MSG_ID_EXC_INVALID_INDEX_OBJECT, icu::UnicodeString()),
                            UIMA_MSG_ID_EXCON_CHECKING_INDEX_DEFINITION,
                            ErrorInfo::unrecoverable);
 	  }
@@ -655,7 +655,28 @@ namespace uima {
       }
 
       getAnalysisEngineMetaData()->validate();
-      //tbd: validate the flow constraints
+
+      //validate the flow constraints
+      if (! isPrimitive()) {
+        FlowConstraints * flow = getAnalysisEngineMetaData()->getFlowConstraints();
+        if (! EXISTS(flow)) {
+          UIMA_EXC_THROW_NEW(ValidationException,
+                             UIMA_ERR_CONFIG_OBJECT_NOT_FOUND,
+                             ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, icu::UnicodeString("The aggregate has no flow constraints.")),
+                             UIMA_MSG_ID_EXCON_VALIDATE_TAE_SPEC,
+                             ErrorInfo::unrecoverable);
+        }
+        vector<icu::UnicodeString> const & nodes = flow->getNodes();
+        for (size_t i=0; i<nodes.size(); i++) {
+          if (! EXISTS(getDelegate(nodes[i]))) {
+            UIMA_EXC_THROW_NEW(ValidationException,
+                               UIMA_ERR_CONFIG_OBJECT_NOT_FOUND,
+                               ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, icu::UnicodeString("The flow contains '") + nodes[i] + "', which is no delegate."),
+                               UIMA_MSG_ID_EXCON_VALIDATE_TAE_SPEC,
+                               ErrorInfo::unrecoverable);
+          }
+        }
+      }
     } catch (ValidationException & rclException) {
       rclException.getErrorInfo().addContext(ErrorMessage(UIMA_MSG_ID_EXCON_VALIDATE_TAE_SPEC_FROM_FILE, getXmlFileLocation()));
       throw rclException;
diff --git a/src/framework/typesystemdescription.cpp b/src/framework/typesystemdescription.cpp
index cfadc79..8418410 100644
--- a/src/framework/typesystemdescription.cpp
+++ b/src/framework/typesystemdescription.cpp
@@ -400,7 +400,7 @@ namespace uima {
       if (countValues(featureNames.begin(), featureNames.end(), featDescs[i]->getName()) != 0) {
         ErrorMessage errMsg(UIMA_MSG_ID_EXC_DUPLICATE_FEATURE_NAME);
         errMsg.addParam(getName());
-        errMsg.addParam(featureNames[i]);
+        errMsg.addParam(featDescs[i]->getName());
         UIMA_EXC_THROW_NEW(ValidationException,
                            UIMA_ERR_CONFIG_DUPLICATE_FEATURE_NAME,
                            errMsg,
-- 
2.43.0


From 47e50e291d6c3a871e75fb47fe7717a81e382406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:30 +0000
Subject: [PATCH 099/143] fix: name the file in XML error messages

---
 src/framework/uima/exceptions.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/framework/uima/exceptions.hpp b/src/framework/uima/exceptions.hpp
index f340113..d214937 100644
--- a/src/framework/uima/exceptions.hpp
+++ b/src/framework/uima/exceptions.hpp
@@ -178,6 +178,15 @@ namespace uima {
       message << p;
       iv_vecParams.push_back(message.str());
 	}
+
+    /// add a text parameter (not its address)
+    void addParam(const UChar * cpuszParam) {
+      addParam(cpuszParam == NULL ? icu::UnicodeString() : icu::UnicodeString(cpuszParam));
+    }
+
+    void addParam(UChar * puszParam) {
+      addParam((const UChar *) puszParam);
+    }
     /*------------------------- Attributes --------------------------------*/
     ///accessor for the message id
     TyMessageId                   getMessageID() const {
-- 
2.43.0


From 8ffc687e0ef9e77dc08e67c7b8f6fbbb5e69b3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 100/143] fix: do not share the name buffer of the type system
 reader between threads

---
 src/cas/xmltypesystemreader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/xmltypesystemreader.cpp b/src/cas/xmltypesystemreader.cpp
index ec43b58..213deec 100644
--- a/src/cas/xmltypesystemreader.cpp
+++ b/src/cas/xmltypesystemreader.cpp
@@ -95,7 +95,7 @@ namespace uima {
   };
 
 
-  static XMLCh gs_tempXMLChBuffer[ MAXXMLCHBUFF ];
+  static thread_local XMLCh gs_tempXMLChBuffer[ MAXXMLCHBUFF ];
 
   XMLCh const * convert(char const * cpBuf) {
     bool bTranscodeSuccess = XMLString::transcode( cpBuf, gs_tempXMLChBuffer, MAXXMLCHBUFF -1 );
-- 
2.43.0


From 63279552b9b6a286b5070d89c03c2000e9b9d2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:50 +0000
Subject: [PATCH 101/143] fix: free everything when creating a type system or
 engine fails, parse engine descriptors from memory

---
 src/framework/annotator_mgr.cpp |  5 +-
 src/framework/casdefinition.cpp | 82 ++++++++++++++++-----------------
 src/framework/engine.cpp        | 76 ++++++++----------------------
 3 files changed, 61 insertions(+), 102 deletions(-)

diff --git a/src/framework/annotator_mgr.cpp b/src/framework/annotator_mgr.cpp
index 19aa35c..39f66e4 100644
--- a/src/framework/annotator_mgr.cpp
+++ b/src/framework/annotator_mgr.cpp
@@ -191,6 +191,9 @@ namespace uima {
         assert( EXISTS(pCapContainer) );
         entry.iv_pCapabilityContainer = pCapContainer;
 
+        /* add to set of delegate TAEs as managed by the AnnotatorManager */
+        iv_vecEntries.insert(iv_vecEntries.end(), entry);
+
         vector<Capability*> const & crCapabilities = pDelegateANC->getTaeSpecifier().getAnalysisEngineMetaData()->getCapabilites();
 
         UIMA_TPRINT("-------------------------------------------------");
@@ -227,8 +230,6 @@ namespace uima {
         UIMA_TPRINT("  is like dump ? " << pCapContainer->hasEmptyOutputTypeOrFeatures(uima::Language("en") ));
 #endif
 
-        /* add to set of delegate TAEs as managed by the AnnotatorManager */
-        iv_vecEntries.insert(iv_vecEntries.end(), entry);
       }
 
       UIMA_ANNOTATOR_TIMING(iv_clTimerLaunchInit.stop());
diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index b15bd9c..7d5876e 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -35,6 +35,7 @@
 #include "uima/pragmas.hpp"
 
 #include <map>
+#include <memory>
 #include <set>
 
 #include "xercesc/util/PlatformUtils.hpp"
@@ -235,11 +236,11 @@ namespace uima {
     }
 
     CASDefinition * CASDefinition::createCASDefinition(AnnotatorContext const & anc) {
-      CASDefinition * result = new CASDefinition(& anc);
-      assert( EXISTS(result) );
+      unique_ptr<CASDefinition> result( new CASDefinition(& anc) );
+      assert( EXISTS(result.get()) );
       result->init();
       result->commit();
-      return result;
+      return result.release();
     }
 
     void CASDefinition::init() {
@@ -633,8 +634,8 @@ namespace uima {
         taespec.commit();
       }
 
-      CASDefinition * result = new CASDefinition(taeSpecifier);
-      assert( EXISTS(result) );
+      unique_ptr<CASDefinition> result( new CASDefinition(taeSpecifier) );
+      assert( EXISTS(result.get()) );
       //result->init();
       result->createPredefinedCASTypes();
       result->mergeTypeSystem(*taeSpecifier.getAnalysisEngineMetaData()->getTypeSystemDescription(),
@@ -647,7 +648,7 @@ namespace uima {
       result->createIndexesFromSpecifier(taeSpecifier.getAnalysisEngineMetaData()->getFSIndexDescriptions());
       result->commitIndexDefinition();
 
-      return result;
+      return result.release();
     }
 
     //creates typesystem and index definition from
@@ -657,8 +658,8 @@ namespace uima {
         ae.commit();
       }
 
-      CASDefinition * result = new CASDefinition();
-      assert( EXISTS(result) );
+      unique_ptr<CASDefinition> result( new CASDefinition() );
+      assert( EXISTS(result.get()) );
 
       result->createPredefinedCASTypes();
       //result->mergeTypeSystem(casSpecifier);
@@ -672,7 +673,7 @@ namespace uima {
       result->createIndexesFromSpecifier(aeDesc.getFSIndexDescriptions());
       result->commitIndexDefinition();
 
-      return result;
+      return result.release();
     }
 
     //creates a CASDefinition with input TypeSystem object and creates index definition
@@ -680,14 +681,14 @@ namespace uima {
     CASDefinition * CASDefinition::createCASDefinition(uima::TypeSystem & typeSystem,
         AnalysisEngineMetaData const & aeDesc) {
 
-      CASDefinition * result = new CASDefinition(typeSystem);
-      assert( EXISTS(result) );
+      unique_ptr<CASDefinition> result( new CASDefinition(typeSystem) );
+      assert( EXISTS(result.get()) );
 
       result->createPredefinedCASIndexes();
       result->createIndexesFromSpecifier(aeDesc.getFSIndexDescriptions());
       result->commitIndexDefinition();
 
-      return result;
+      return result.release();
 
     }
 
@@ -695,30 +696,30 @@ namespace uima {
         AnalysisEngineMetaData::TyVecpFSIndexDescriptions  const & fsDesc,
         AnalysisEngineMetaData::TyVecpTypePriorities   const & prioDesc) {
 
-      CASDefinition * result = new CASDefinition(typeSystem);
-      assert( EXISTS(result) );
+      unique_ptr<CASDefinition> result( new CASDefinition(typeSystem) );
+      assert( EXISTS(result.get()) );
 
       result->createPredefinedCASIndexes();
       result->createIndexesFromSpecifier(fsDesc);
       //TODO: addTypePriorities
       result->commitIndexDefinition();
 
-      return result;
+      return result.release();
 
     }
 
     CASDefinition * CASDefinition::createCASDefinition(TypeSystem   & typeSystem,
         AnalysisEngineMetaData::TyVecpFSIndexDescriptions  const & fsDesc) {
 
-      CASDefinition * result = new CASDefinition(typeSystem);
-      assert( EXISTS(result) );
+      unique_ptr<CASDefinition> result( new CASDefinition(typeSystem) );
+      assert( EXISTS(result.get()) );
 
       result->createPredefinedCASIndexes();
       result->createIndexesFromSpecifier(fsDesc);
 
       result->commitIndexDefinition();
 
-      return result;
+      return result.release();
 
     }
 
@@ -727,28 +728,27 @@ namespace uima {
 
     //creates a CASDefition based on input TypeSystem and creates the default/builtin index definition
     CASDefinition * CASDefinition::createCASDefinition(uima::TypeSystem & typeSystem) {
-      CASDefinition * result = new CASDefinition(typeSystem);
-      assert( EXISTS(result) );
+      unique_ptr<CASDefinition> result( new CASDefinition(typeSystem) );
+      assert( EXISTS(result.get()) );
       result->createPredefinedCASIndexes();
       result->commitIndexDefinition();
-      return result;
+      return result.release();
     }
 
 
     uima::lowlevel::TypeSystem * CASDefinition::createTypeSystem(AnalysisEngineMetaData const & casSpecifier) {
 
-      uima::lowlevel::TypeSystem * pTypeSystem = new uima::lowlevel::TypeSystem();
-      assert( EXISTS(pTypeSystem) );
-      CASDefinition * result = new CASDefinition(*pTypeSystem);
-      assert( EXISTS(result) );
+      unique_ptr<CASDefinition> result( new CASDefinition() );
+      assert( EXISTS(result.get()) );
       result->createPredefinedCASTypes();
       result->mergeTypeSystem(*casSpecifier.getTypeSystemDescription(),
                               casSpecifier.getName());
 
       result->addTypePriorities(casSpecifier.getTypePriorities());
-      pTypeSystem->commit();
-      delete result;
-      return pTypeSystem;
+      result->commitTypeSystemOnly();
+      // the type system now belongs to the caller
+      result->bOwnsTypeSystem = false;
+      return result->iv_typeSystem;
     }
 
     uima::lowlevel::TypeSystem * CASDefinition::createTypeSystem(TypeSystemDescription const & crTSDesc,
@@ -759,16 +759,15 @@ namespace uima {
         tsDesc.commit();
       }
 
-      uima::lowlevel::TypeSystem * pTypeSystem = new uima::lowlevel::TypeSystem();
-      assert( EXISTS(pTypeSystem) );
-      CASDefinition * result = new CASDefinition(*pTypeSystem);
-      assert( EXISTS(result) );
+      unique_ptr<CASDefinition> result( new CASDefinition() );
+      assert( EXISTS(result.get()) );
       result->createPredefinedCASTypes();
       result->mergeTypeSystem(crTSDesc, tsName);
       //result->addTypePriorities(casSpecifier);
-      pTypeSystem->commit();
-      delete result;
-      return pTypeSystem;
+      result->commitTypeSystemOnly();
+      // the type system now belongs to the caller
+      result->bOwnsTypeSystem = false;
+      return result->iv_typeSystem;
     }
 
 
@@ -782,16 +781,15 @@ namespace uima {
       }
 
 
-      uima::lowlevel::TypeSystem * pTypeSystem = new uima::lowlevel::TypeSystem();
-      assert( EXISTS(pTypeSystem) );
-      CASDefinition * result = new CASDefinition(*pTypeSystem);
-      assert( EXISTS(result) );
+      unique_ptr<CASDefinition> result( new CASDefinition() );
+      assert( EXISTS(result.get()) );
       result->createPredefinedCASTypes();
       result->mergeTypeSystem(crTSDesc, tsName);
       result->addTypePriorities(typePriorities);
-      pTypeSystem->commit();
-      delete result;
-      return pTypeSystem;
+      result->commitTypeSystemOnly();
+      // the type system now belongs to the caller
+      result->bOwnsTypeSystem = false;
+      return result->iv_typeSystem;
     }
 
 
diff --git a/src/framework/engine.cpp b/src/framework/engine.cpp
index 2a12982..6e8920d 100644
--- a/src/framework/engine.cpp
+++ b/src/framework/engine.cpp
@@ -280,29 +280,11 @@ namespace uima {
       if (bIsFilename) {
         builder.parseAnalysisEngineDescription(* apTAESpecifier.get(), crString);
       } else {
-        /*
-           Some XML4C routines which have to do wiht parsing an in-memory 
-           buffer don't work, so this is why we don't call
-             builder.buildTaeFromMemory(* apTAESpecifier.get(), crString);
-           here but rather create a temp file.
-        */
-        // Use what appears to be a thread-safe routine on Linux & Windows
-	// Updated to use mkstemp - DG
-        /* char* tmpFileName = tempnam(NULL, "TMP"); */
-	char* tmpFileName = strdup("/tmp/TMPXXXXXX");
-	int fd = mkstemp(tmpFileName);
-	close(fd);
-
-        ofstream ofs(tmpFileName);
-        uima::operator<<(ofs, crString);
-        ofs << endl;
-        ofs.close();
-        UIMA_TPRINT("Wrote descriptor to temp file:");
-        UIMA_TPRINT(tmpFileName);
-        builder.parseAnalysisEngineDescription(* apTAESpecifier.get(), tmpFileName);
-
-        remove(tmpFileName);                // or unlink ??
-        free(tmpFileName);                  // Free storage allocated by tempnam
+        // the buffer is Unicode, whatever encoding the XML declaration names
+        std::string utf8Buffer(UnicodeStringRef(crString).asUTF8());
+        MemBufInputSource memIS((XMLByte const *) utf8Buffer.c_str(), utf8Buffer.length(), "sysID");
+        memIS.setEncoding(XMLUni::fgUTF8EncodingString);
+        builder.parseAnalysisEngineDescription(* apTAESpecifier.get(), memIS);
       }
 
       apTAESpecifier->validate();
@@ -318,8 +300,6 @@ namespace uima {
 
       unique_ptr<uima::internal::CASDefinition> apCASDef( uima::internal::CASDefinition::createCASDefinition(*apANC.get()) );
       // release auto_ptrs here because the createTAE transfers ownership to the engine
-      //  Warning: this could cause a memory leak if the createTAE() method coudl not create
-      //           the actual engine object.     suhre 02/11/03
       apTAESpecifier.release();
       AnalysisEngine * pResult = createAnalysisEngine(* apANC.release(), true,
                                      true,
@@ -386,8 +366,6 @@ namespace uima {
 
       unique_ptr<uima::internal::CASDefinition> apCASDef( uima::internal::CASDefinition::createCASDefinition(*apANC.get()) );
       // release auto_ptrs here because the createTAE transfers ownership to the engine
-      //  Warning: this could cause a memory leak if the createTAE() method coudl not create (construct)
-      //           the actual engine object.     suhre 02/11/03
        AnalysisEngine * pResult = createAnalysisEngine(*apANC.release(), true,
                                      false,
                                      *apCASDef.release(), true,
@@ -454,8 +432,8 @@ namespace uima {
   TypeSystem * Framework::createTypeSystem(char const * crFileName, ErrorInfo& rErrorInfo) {
 
     XMLParser builder;
-    AnalysisEngineMetaData * pAe = new AnalysisEngineMetaData();
-    TypeSystemDescription * tsDesc = new TypeSystemDescription();
+    unique_ptr<AnalysisEngineMetaData> apSpecifier( new AnalysisEngineMetaData() );
+    unique_ptr<TypeSystemDescription> tsDesc( new TypeSystemDescription() );
 	
     icu::UnicodeString ufn(crFileName);
     size_t uiLen = ufn.length();
@@ -467,13 +445,7 @@ namespace uima {
     LocalFileInputSource fileIS((XMLCh const *) arBuffer.get());
 
     builder.parseTypeSystemDescription(*tsDesc, fileIS);
-    pAe->setTypeSystemDescription(tsDesc);
-
-    unique_ptr<AnalysisEngineMetaData> apSpecifier(pAe  );
-    if (apSpecifier.get() == NULL) {
-      rErrorInfo.setErrorId(UIMA_ERR_ENGINE_OUT_OF_MEMORY);
-      return NULL;
-    }
+    apSpecifier->setTypeSystemDescription(tsDesc.release());
 
     uima::TypeSystem * pTs =  uima::internal::CASDefinition::createTypeSystem(*apSpecifier.get());
     return pTs;
@@ -487,19 +459,13 @@ namespace uima {
     UnicodeStringRef usRef(cpBuffer, uiLength);
     std::string utf8Buffer(usRef.asUTF8());
     XMLParser builder;
-    AnalysisEngineMetaData * pAe = new AnalysisEngineMetaData();
-	TypeSystemDescription * tsDesc = new TypeSystemDescription();
+    unique_ptr<AnalysisEngineMetaData> apSpecifier( new AnalysisEngineMetaData() );
+	unique_ptr<TypeSystemDescription> tsDesc( new TypeSystemDescription() );
     MemBufInputSource memIS((XMLByte const *)utf8Buffer.c_str(),
 		                    utf8Buffer.length(),
 							"sysID");
 	builder.parseTypeSystemDescription(*tsDesc,memIS);
-    pAe->setTypeSystemDescription(tsDesc);
-
-    unique_ptr<AnalysisEngineMetaData> apSpecifier(pAe  );
-    if (apSpecifier.get() == NULL) {
-      rErrorInfo.setErrorId(UIMA_ERR_ENGINE_OUT_OF_MEMORY);
-      return NULL;
-    }
+    apSpecifier->setTypeSystemDescription(tsDesc.release());
 
     uima::TypeSystem * pTs =  uima::internal::CASDefinition::createTypeSystem(*apSpecifier.get());
     return pTs;
@@ -510,17 +476,11 @@ namespace uima {
   TypeSystem * Framework::createTypeSystemFromXMLBuffer( char const * cpBuffer,
       ErrorInfo& rErrorInfo) {
     XMLParser builder;
-    AnalysisEngineMetaData * pAe = new AnalysisEngineMetaData();
+    unique_ptr<AnalysisEngineMetaData> apSpecifier( new AnalysisEngineMetaData() );
 	MemBufInputSource memIS((XMLByte const *) cpBuffer, strlen(cpBuffer), "sysID");
-	TypeSystemDescription * tsDesc = new TypeSystemDescription();
+	unique_ptr<TypeSystemDescription> tsDesc( new TypeSystemDescription() );
 	builder.parseTypeSystemDescription(*tsDesc, memIS);
-    pAe->setTypeSystemDescription(tsDesc);
-
-    unique_ptr<AnalysisEngineMetaData> apSpecifier(pAe  );
-    if (apSpecifier.get() == NULL) {
-      rErrorInfo.setErrorId(UIMA_ERR_ENGINE_OUT_OF_MEMORY);
-      return NULL;
-    }
+    apSpecifier->setTypeSystemDescription(tsDesc.release());
 
     uima::TypeSystem * pTs =  uima::internal::CASDefinition::createTypeSystem(*apSpecifier.get());
     return pTs;
@@ -577,11 +537,11 @@ namespace uima {
     UnicodeStringRef usRef(cpBuffer, uiLength);
     std::string utf8Buffer(usRef.asUTF8());
     XMLParser builder;
-    TypeSystemDescription * tsDesc = new TypeSystemDescription();
+    unique_ptr<TypeSystemDescription> tsDesc( new TypeSystemDescription() );
     MemBufInputSource memIS((XMLByte const *) utf8Buffer.c_str(), 
 		                     utf8Buffer.length(), "sysID");
 	builder.parseTypeSystemDescription(*tsDesc,memIS);
-    return tsDesc;
+    return tsDesc.release();
   }
 
   //read in xml from a file and create a TypeSystemDescription object
@@ -589,9 +549,9 @@ namespace uima {
     XMLParser builder;
 	icu::UnicodeString ufn(crFileName);
 	LocalFileInputSource fileIS((XMLCh const *) ufn.getTerminatedBuffer());
-	TypeSystemDescription * tsDesc = new TypeSystemDescription();
+	unique_ptr<TypeSystemDescription> tsDesc( new TypeSystemDescription() );
     builder.parseTypeSystemDescription(*tsDesc,fileIS);
-	return tsDesc;
+	return tsDesc.release();
   }
 
 
-- 
2.43.0


From ee2c7af719c249b808bc11423455f524229d7508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:58 +0000
Subject: [PATCH 102/143] fix: return the error code of process and keep the
 type of annotator exceptions

---
 src/framework/internal_engine_base.cpp      | 10 +++++-----
 src/framework/internal_primitive_engine.cpp |  6 +-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/framework/internal_engine_base.cpp b/src/framework/internal_engine_base.cpp
index 42f9f58..27d8ff6 100644
--- a/src/framework/internal_engine_base.cpp
+++ b/src/framework/internal_engine_base.cpp
@@ -188,7 +188,7 @@ namespace uima {
         }
       } catch (ExcWinCException & rclException) {
         // windows "exceptions" are really abort signals: we re-throw for app to handle
-        throw rclException;
+        throw;
       } catch (Exception & rclException) {
         clTrace.dump("Unexpected UIMACPP exception");
         clTrace.dump(rclException.asString().c_str());
@@ -430,7 +430,7 @@ namespace uima {
         return hasNextImpl();
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
-        throw rclException;
+        throw;
       }
     }
 
@@ -445,7 +445,7 @@ namespace uima {
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
         //return rclException.getErrorInfo().getErrorId();
-        throw rclException;
+        throw;
       }
     }
 
@@ -461,7 +461,7 @@ namespace uima {
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
         //return rclException.getErrorInfo().getErrorId();
-        throw rclException;
+        throw;
       }
     }
 
@@ -490,7 +490,7 @@ namespace uima {
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
         //return rclException.getErrorInfo().getErrorId();
-        throw rclException;
+        throw;
       }
     }
 
diff --git a/src/framework/internal_primitive_engine.cpp b/src/framework/internal_primitive_engine.cpp
index aaad5d9..b7c2b99 100644
--- a/src/framework/internal_primitive_engine.cpp
+++ b/src/framework/internal_primitive_engine.cpp
@@ -202,11 +202,7 @@ namespace uima {
       if (bCallAnnotator) {
         // link CAS to current component
         cas.setCurrentComponentInfo(&getAnnotatorContext());
-        try {
-          iv_pAnnotator->processDocument(cas, crResultSpec);
-        } catch (Exception e) {
-          UIMA_EXC_RETHROW(e,0);
-        }
+        return iv_pAnnotator->processDocument(cas, crResultSpec);
       }
       // if annotator should not be called is not really an error
       return UIMA_ERR_NONE;
-- 
2.43.0


From ce2b2facf6112c8317b830d2fc36b0d12839dc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:02 +0000
Subject: [PATCH 103/143] fix: rethrow exceptions with their own type

---
 src/framework/uima/exceptions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/uima/exceptions.hpp b/src/framework/uima/exceptions.hpp
index d214937..0d689a2 100644
--- a/src/framework/uima/exceptions.hpp
+++ b/src/framework/uima/exceptions.hpp
@@ -754,7 +754,7 @@ namespace uima {
 #define UIMA_EXC_RETHROW(exc, cntxt)\
   exc.getErrorInfo().addContext(UIMA_EXC_CONTEXT(cntxt)),\
   exc.logExceptionData(),\
-  throw exc
+  throw
 
   /**This macro is intended to be used for throwing exceptions that are
      not yet defined. It defines an exception of type <TT>extype</TT> with
-- 
2.43.0


From 66b897d7da1e32dc1409b01844748365a3d53839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:14 +0000
Subject: [PATCH 104/143] fix: aggregates forward batchProcessComplete

---
 src/framework/internal_aggregate_engine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/internal_aggregate_engine.cpp b/src/framework/internal_aggregate_engine.cpp
index c0ca218..1e6f98b 100644
--- a/src/framework/internal_aggregate_engine.cpp
+++ b/src/framework/internal_aggregate_engine.cpp
@@ -211,7 +211,7 @@ namespace uima {
 
     TyErrorId AggregateEngine::batchProcessCompleteImpl(void) {
       util::Trace             clTrace(util::enTraceDetailMedium, UIMA_TRACE_ORIGIN, UIMA_TRACE_COMPID_ENGINE);
-      return iv_annotatorMgr.launchCollectionProcessComplete();
+      return iv_annotatorMgr.launchBatchProcessComplete();
     }
 
     TyErrorId AggregateEngine::collectionProcessCompleteImpl(void) {
-- 
2.43.0


From 43eabe49fae9849af97300e1e13aabc9fc3ec5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:34 +0000
Subject: [PATCH 105/143] fix: refuse iteration on engines that are not
 initialized; convert library names without overflow

---
 src/framework/internal_engine_base.cpp | 17 ++++++++++-------
 src/framework/res_annotator.cpp        | 10 +++++-----
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/framework/internal_engine_base.cpp b/src/framework/internal_engine_base.cpp
index 27d8ff6..a388874 100644
--- a/src/framework/internal_engine_base.cpp
+++ b/src/framework/internal_engine_base.cpp
@@ -422,11 +422,10 @@ namespace uima {
     bool EngineBase::hasNext() {
       try {
         util::Trace                clTrace(util::enTraceDetailLow, UIMA_TRACE_ORIGIN, UIMA_TRACE_COMPID_ENGINE);
-        /** why do this ?? (bi)
         if (!checkAndSetCallingSequenceProcess()) {
-           logError(clTrace, UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE);
-           return false;
-        } **/
+          logError(clTrace, UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE);
+          return false;
+        }
         return hasNextImpl();
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
@@ -437,10 +436,14 @@ namespace uima {
     CAS &  EngineBase::next() {
       try {
         util::Trace                clTrace(util::enTraceDetailLow, UIMA_TRACE_ORIGIN, UIMA_TRACE_COMPID_ENGINE);
-        /** why do this (bi)
         if (!checkAndSetCallingSequenceProcess()) {
-           logError(clTrace, UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE);
-        } **/
+          logError(clTrace, UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE);
+          UIMA_EXC_THROW_NEW(CASIteratorException,
+                             UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE,
+                             UIMA_MSG_ID_EXCON_CALLING_ANNOTATOR_FUNCTION,
+                             UIMA_MSG_ID_EXCON_CALLING_ANNOTATOR_FUNCTION,
+                             ErrorInfo::unrecoverable);
+        }
         return nextImpl();
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
diff --git a/src/framework/res_annotator.cpp b/src/framework/res_annotator.cpp
index fe89f18..1cc899b 100644
--- a/src/framework/res_annotator.cpp
+++ b/src/framework/res_annotator.cpp
@@ -36,6 +36,8 @@
 #include "uima/res_annotator.hpp"
 #include <limits.h>
 #include "uima/resmgr.hpp"
+#include "uima/ccsid.hpp"
+#include "uima/unistrref.hpp"
 
 /* ----------------------------------------------------------------------- */
 /*       Constants                                                         */
@@ -65,11 +67,9 @@ namespace uima {
       icu::UnicodeString const & crAnnotatorFileName = getKey();
 
       // first we must convert our unicode filename to single byte
-      size_t nameLen = crAnnotatorFileName.length();
-      char* buf = new char[1+nameLen];
-      crAnnotatorFileName.extract(0, nameLen, buf);
-      util::Filename filename(buf);
-      delete[] buf;
+      std::string name;
+      UnicodeStringRef(crAnnotatorFileName).extract(name, CCSID::getDefaultName());
+      util::Filename filename(name.c_str());
 
       /* No longer optionally remove the path before loading, or add "itu" prefix.
          Now load only what we're given, i.e. a full filename with path,
-- 
2.43.0


From c103ee96150d23056c0261d3344491b381d6fbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:14 +0000
Subject: [PATCH 106/143] fix: keep the loader error text; a missing procedure
 does not invalidate a loaded library

---
 src/framework/uima/dllfile.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/framework/uima/dllfile.hpp b/src/framework/uima/dllfile.hpp
index 9aa00ce..a31e929 100644
--- a/src/framework/uima/dllfile.hpp
+++ b/src/framework/uima/dllfile.hpp
@@ -142,6 +142,7 @@ namespace uima {
       apr_status_t               aprError2;
 #endif
       /* --- functions --- */
+      void saveErrorMsg(void);
       /* BASE CONSTRUCTOR NOT SUPPORTED */
       DllProcLoaderFile(void); //lint !e1704
       /* COPY CONSTRUCTOR NOT SUPPORTED */
@@ -205,6 +206,9 @@ namespace uima {
           iv_clFilename.setNewExtension(DSO_EXTN);
         aprError = apr_dso_load(&dsoHandle, iv_clFilename.getAsCString(), dsoPool);
         isLoaded = ( aprError == APR_SUCCESS );
+        *dsoBuffer = '\0';
+        if ( !isLoaded )
+          saveErrorMsg();
 
 #ifdef WIN32
         // WIN32: LoadLibraryEx falsely reports ERROR_MOD_NOT_FOUND when the dll cannot be loaded.
@@ -253,9 +257,10 @@ namespace uima {
     {
       apr_dso_handle_sym_t procAddr = NULL;
       if (isLoaded) {
-        aprError = apr_dso_sym(&procAddr, dsoHandle, cpszProcName);
-        if (aprError == APR_SUCCESS)
+        // a missing procedure does not make the loaded file invalid
+        if (apr_dso_sym(&procAddr, dsoHandle, cpszProcName) == APR_SUCCESS)
           return (TyProcedure) procAddr;
+        saveErrorMsg();
       }
       return NULL;
     }
@@ -270,11 +275,20 @@ namespace uima {
         if ( aprError == aprError2 )
           return apr_strerror ( aprError2, dsoBuffer, DSOBUFLEN );
 #endif
-        return apr_dso_error ( dsoHandle, dsoBuffer, DSOBUFLEN );
+        return dsoBuffer;
       }
 
     }
 
+    inline void DllProcLoaderFile::saveErrorMsg(void)
+    /* ----------------------------------------------------------------------- */
+    {
+      // the text belongs to the loader and lasts only until its next error: keep a copy
+      *dsoBuffer = '\0';
+      if ( dsoHandle != NULL )
+        apr_dso_error ( dsoHandle, dsoBuffer, DSOBUFLEN );
+    }
+
 	inline TyErrorId  DllProcLoaderFile::getErrorId(void) const
     /* ----------------------------------------------------------------------- */
     {	
-- 
2.43.0


From cde2a7c6a7c90a90cdf486ae37daccd24c2f0873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:22 +0000
Subject: [PATCH 107/143] fix: one name per imported file, also for absolute
 paths and paths below the working directory

---
 src/framework/resmgr.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/framework/resmgr.cpp b/src/framework/resmgr.cpp
index 96574a5..9d49cb1 100644
--- a/src/framework/resmgr.cpp
+++ b/src/framework/resmgr.cpp
@@ -812,13 +812,19 @@ namespace uima {
     util::Filename fileLoc(filename_cstr.get());
 
     // don't try our search mimic for absolute paths
+    // (one name per file, for imports of the same file under different names)
     if (fileLoc.isAbsolute()) {
-      return filename;
+      if (!fileLoc.isExistent()) {
+        return filename;
+      }
+      fileLoc.normalizeAbsolute();
+      return fileLoc.getAsCString();
     }
 
     // relative path to the current directory
     if (fileLoc.isExistent()) {
-      return filename;
+      fileLoc.normalizeAbsolute();
+      return fileLoc.getAsCString();
     }
 
     // try in the same directory as lastFilename
-- 
2.43.0


From 832cbe791c1d3fcd444e25c839211b14f828cdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:30 +0000
Subject: [PATCH 108/143] fix: type priorities (and, for CASes created from a
 description, indexes) of delegates apply to the aggregate

---
 src/framework/annotator_context.cpp      | 10 ++++++++++
 src/framework/casdefinition.cpp          | 20 +++++++++++++++++---
 src/framework/uima/annotator_context.hpp |  5 +++++
 src/framework/uima/casdefinition.hpp     |  1 +
 4 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/framework/annotator_context.cpp b/src/framework/annotator_context.cpp
index 8e3dcc6..851799c 100644
--- a/src/framework/annotator_context.cpp
+++ b/src/framework/annotator_context.cpp
@@ -462,6 +462,16 @@ namespace uima {
     return allDescs;
   }
 
+  const AnalysisEngineMetaData::TyVecpTypePriorities AnnotatorContext::getTypePriorities() const {
+    AnalysisEngineMetaData::TyVecpTypePriorities all( iv_pTaeSpecifier->getAnalysisEngineMetaData()->getTypePriorities() );
+    TyMapDelegateAnCs::const_iterator ite;
+    for (ite=iv_mapDelegateAncs.begin(); ite != iv_mapDelegateAncs.end(); ite++) {
+      const AnalysisEngineMetaData::TyVecpTypePriorities del( ite->second->getTypePriorities() );
+      all.insert(all.end(), del.begin(), del.end());
+    }
+    return all;
+  }
+
   NameValuePair const *
   AnnotatorContext::findNameValuePair(const icu::UnicodeString & groupName,
                                       const icu::UnicodeString & paramName,
diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index 7d5876e..7821a6f 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -228,6 +228,20 @@ namespace uima {
     void CASDefinition::addTypePriorities(AnalysisEngineDescription const & crTAESpecifier) {
       uima::AnalysisEngineMetaData::TyVecpTypePriorities const & crTypePriorities = crTAESpecifier.getAnalysisEngineMetaData()->getTypePriorities();
       addTypePriorities(crTypePriorities);
+      // an aggregate has the type priorities of its delegates, too
+      AnalysisEngineDescription::TyMapDelegateSpecs::const_iterator cit;
+      for (cit = crTAESpecifier.getDelegates().begin(); cit != crTAESpecifier.getDelegates().end(); ++cit) {
+        addTypePriorities(*cit->second);
+      }
+    }
+
+    void CASDefinition::createIndexesFromSpecifier(AnalysisEngineDescription const & crTAESpecifier) {
+      createIndexesFromSpecifier(crTAESpecifier.getAnalysisEngineMetaData()->getFSIndexDescriptions());
+      // an aggregate has the indexes of its delegates, too
+      AnalysisEngineDescription::TyMapDelegateSpecs::const_iterator cit;
+      for (cit = crTAESpecifier.getDelegates().begin(); cit != crTAESpecifier.getDelegates().end(); ++cit) {
+        createIndexesFromSpecifier(*cit->second);
+      }
     }
 
     void CASDefinition::createIndexesFromANC(AnnotatorContext const & crANC) {
@@ -265,7 +279,7 @@ namespace uima {
       createPredefinedCASTypes();
       if ( iv_annotatorContext != NULL ) {
         mergeTypeSystem(iv_annotatorContext->getTaeSpecifier());
-        addTypePriorities(iv_annotatorContext->getTaeSpecifier());
+        addTypePriorities(iv_annotatorContext->getTypePriorities());
       }
     }
     void CASDefinition::createIndexes() {
@@ -640,12 +654,12 @@ namespace uima {
       result->createPredefinedCASTypes();
       result->mergeTypeSystem(*taeSpecifier.getAnalysisEngineMetaData()->getTypeSystemDescription(),
                               taeSpecifier.getAnalysisEngineMetaData()->getName());
-      result->addTypePriorities(taeSpecifier.getAnalysisEngineMetaData()->getTypePriorities());
+      result->addTypePriorities(taeSpecifier);
 
       //result->commit();
       result->commitTypeSystemOnly();
       result->createPredefinedCASIndexes();
-      result->createIndexesFromSpecifier(taeSpecifier.getAnalysisEngineMetaData()->getFSIndexDescriptions());
+      result->createIndexesFromSpecifier(taeSpecifier);
       result->commitIndexDefinition();
 
       return result.release();
diff --git a/src/framework/uima/annotator_context.hpp b/src/framework/uima/annotator_context.hpp
index 5b63687..83abd17 100644
--- a/src/framework/uima/annotator_context.hpp
+++ b/src/framework/uima/annotator_context.hpp
@@ -310,6 +310,11 @@ namespace uima {
      **/
     const AnalysisEngineMetaData::TyVecpFSIndexDescriptions getFSIndexDescriptions() const;
 
+    /**
+     * returns the type priorities of this AnnotatorContext and all of its delegates
+     **/
+    const AnalysisEngineMetaData::TyVecpTypePriorities getTypePriorities() const;
+
     /**
     * @return A set containing the names of all groups that define <code>paramName</code>.
     * This includes the groups in this AnC and all its parents.
diff --git a/src/framework/uima/casdefinition.hpp b/src/framework/uima/casdefinition.hpp
index ebb65b8..606e562 100644
--- a/src/framework/uima/casdefinition.hpp
+++ b/src/framework/uima/casdefinition.hpp
@@ -101,6 +101,7 @@ namespace uima {
 
       bool bOwnsTypeSystem;
       void createIndexesFromSpecifier(AnalysisEngineMetaData::TyVecpFSIndexDescriptions const & ) ;
+      void createIndexesFromSpecifier(AnalysisEngineDescription const &);
       void addTypePriorities(AnalysisEngineMetaData::TyVecpTypePriorities const & );
       void mergeTypeSystem(TypeSystemDescription const &,
                            icu::UnicodeString const & );
-- 
2.43.0


From 28370cc4999385e8f344ca356088a8bbaf9abe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:20 +0000
Subject: [PATCH 109/143] fix: capability languages of any length

---
 .../internal_capability_container.cpp          | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/framework/internal_capability_container.cpp b/src/framework/internal_capability_container.cpp
index 238cdb5..814a696 100644
--- a/src/framework/internal_capability_container.cpp
+++ b/src/framework/internal_capability_container.cpp
@@ -62,29 +62,21 @@ namespace uima {
       Capability::TyVecCapabilityTofs const & vecTofs,
       Capability::TyVecCapabilityLanguages const & vecLangs,
       TypeSystem const & typeSystem) {
-      const int BUF_SIZE = 0x100;
-      char  cBuf[BUF_SIZE];
       Capability::TyVecCapabilityLanguages::const_iterator itLang;
       for (itLang = vecLangs.begin(); itLang != vecLangs.end(); ++itLang) {
-        // convert unicode lang string to single-byte lang string
-        assert((*itLang).length() < BUF_SIZE);
-        // Note: this conversion can be used only for invariant characters
-        u_UCharsToChars((*itLang).getBuffer(), cBuf, (*itLang).length());
-        // zero terminate single-byte buffer
-        cBuf[(*itLang).length()] = '\0';
+        // create a language object based on the lang string
+        Language lang((UnicodeStringRef(*itLang)));
         // Special workaround code for the new way to specify the unspecified language
-        if (strcasecmp(cBuf, "x-unspecified") == 0) {
-          strcpy(cBuf, Language::UNSPECIFIED);
+        if ((*itLang).caseCompare("x-unspecified", U_FOLD_CASE_DEFAULT) == 0) {
+          lang = Language(Language::UNSPECIFIED);
         }
-        // create a language object based on single-byte lang string
-        Language lang(cBuf);
         if (!lang.isValid()) {
           /* taph 06.02.2003: once we have more detailed information about
           the origin of the error we need to replace "unknown configuration file"
           with the filename of the XML file (and maybe line number?) */
           UIMA_EXC_THROW_NEW(uima::CapabilityException,          // exc-type
                              UIMA_ERR_ENGINE_LANGUAGE_INVALID,   // error code
-                             ErrorMessage(UIMA_MSG_ID_EXC_INVALID_LANGUAGE, cBuf), // error message
+                             ErrorMessage(UIMA_MSG_ID_EXC_INVALID_LANGUAGE, *itLang), // error message
                              ErrorMessage(UIMA_MSG_ID_EXCON_CHECKING_CAPABILITY_SPEC,"unknown configuration file"),  // error context message
                              ErrorInfo::recoverable);
         }
-- 
2.43.0


From 1566ea03701a3e1980ca2502b02b67946491b5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:26 +0000
Subject: [PATCH 110/143] fix: strtrim of white space reads only the string

---
 src/framework/uima/strtools.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/framework/uima/strtools.hpp b/src/framework/uima/strtools.hpp
index 4b769ab..f3b4eba 100644
--- a/src/framework/uima/strtools.hpp
+++ b/src/framework/uima/strtools.hpp
@@ -1227,14 +1227,14 @@ namespace uima {
       return s;
     }
     size_t beg = 0;
-    size_t end = s.length()-1;
-    while (end >= beg && isspace_templ(s[end]) ) {
+    size_t end = s.length();
+    while (end > beg && isspace_templ(s[end-1]) ) {
       --end;
     }
     while (beg < end && isspace_templ(s[beg]) ) {
       ++beg;
     }
-    return s.substr(beg, end-beg+1);
+    return s.substr(beg, end-beg);
   }
 
   /*---------------------------------------------------------------------------*/
-- 
2.43.0


From 26c579c116e7dad1231c612dda21d6e226cf6397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:36 +0000
Subject: [PATCH 111/143] fix: Sofa names are mapped through all levels of
 aggregates without changing descriptions

---
 src/framework/annotator_context.cpp      | 42 ++++++++----------------
 src/framework/uima/annotator_context.hpp |  9 +++--
 2 files changed, 20 insertions(+), 31 deletions(-)

diff --git a/src/framework/annotator_context.cpp b/src/framework/annotator_context.cpp
index 851799c..3b6debc 100644
--- a/src/framework/annotator_context.cpp
+++ b/src/framework/annotator_context.cpp
@@ -79,37 +79,21 @@ namespace uima {
         // aggregate sofaname is the value
         // if component sofa name is not set,
         // set it to the default for tcas sofas.
-        if (sofamap->getComponentSofaName().length() == 0) {
-          icu::UnicodeString ustr(CAS::NAME_DEFAULT_TEXT_SOFA);
-          sofamap->setComponentSofaName(ustr);
+        icu::UnicodeString componentSofaName(sofamap->getComponentSofaName());
+        if (componentSofaName.length() == 0) {
+          componentSofaName = icu::UnicodeString(CAS::NAME_DEFAULT_TEXT_SOFA);
         }
-        SofaID * pSofaid = new SofaID();
-        pSofaid->setSofaId(sofamap->getAggregateSofaName());
-        pSofaid->setComponentSofaName(sofamap->getComponentSofaName());
-        icu::UnicodeString astr = sofamap->getComponentSofaName();
-        iv_mapSofaMappings[astr] = pSofaid;
-
-        //if this delegate is an aggregate and has sofamapping
-        //check if somponent sofaname is specified as the
-        //aggregate sofa name in this delegate specifier
-        //if so update that aggregate sofa name
-        if (!delegateSpec->isPrimitive()) {
-          AnalysisEngineDescription::TyVecpSofaMappings delegateSofaMappings = delegateSpec->getSofaMappings();
-          if (delegateSofaMappings.size() > 0 ) {
-            AnalysisEngineDescription::TyVecpSofaMappings::const_iterator iter;
-
-            for (iter = delegateSofaMappings.begin(); iter != delegateSofaMappings.end(); ++iter) {
-              SofaMapping  * delsofamap = * iter;
-              if (delsofamap->getAggregateSofaName().compare(astr)==0) {
-                delsofamap->setAggregateSofaName(pSofaid->getSofaId());
-              }
-            }
-
-
-          }
+        // the aggregate may itself be a delegate whose Sofa names are mapped
+        icu::UnicodeString sofaName(sofamap->getAggregateSofaName());
+        if (parent != NULL) {
+          sofaName = parent->mapToSofaID(sofaName).getSofaId();
         }
-
-
+        SofaID * & rpSofaid = iv_mapSofaMappings[componentSofaName];
+        if (rpSofaid == NULL) {
+          rpSofaid = new SofaID();
+        }
+        rpSofaid->setSofaId(sofaName);
+        rpSofaid->setComponentSofaName(componentSofaName);
       }
 
     }
diff --git a/src/framework/uima/annotator_context.hpp b/src/framework/uima/annotator_context.hpp
index 83abd17..3198c7e 100644
--- a/src/framework/uima/annotator_context.hpp
+++ b/src/framework/uima/annotator_context.hpp
@@ -149,7 +149,8 @@ namespace uima {
      * Use this method to obtain a SofaID which is a handle to a Sofa in the CAS.  
      * This method looks up the SofaID in the Sofa name mapping provided for
      * this AnalysisEngine.  If there is no mapping for the specified Sofa name,
-     * it maps to itself.
+     * it is the name of the same Sofa in the enclosing aggregate; without an
+     * enclosing aggregate it maps to itself.
      * Note: This AnnotatorContext still has memory ownership of the returned
      * object.
      **/
@@ -160,7 +161,11 @@ namespace uima {
       } else {
         SofaID * pSofaid = new SofaID();
         pSofaid->setComponentSofaName(componentSofaName);
-        pSofaid->setSofaId(componentSofaName);
+        if (iv_pParentAnC != NULL) {
+          pSofaid->setSofaId(iv_pParentAnC->mapToSofaID(componentSofaName).getSofaId());
+        } else {
+          pSofaid->setSofaId(componentSofaName);
+        }
         icu::UnicodeString astr = pSofaid->getComponentSofaName();
         iv_mapSofaMappings[astr] = pSofaid;
         return *pSofaid;
-- 
2.43.0


From 67ed15f9e611d3cdd9a06ef49f7ea28b8b4880ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:17 +0000
Subject: [PATCH 112/143] fix: capabilities: merge the outputs of the
 unspecified language without inputs, treat a capability without languages as
 unspecified

---
 .../internal_capability_container.cpp         | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/framework/internal_capability_container.cpp b/src/framework/internal_capability_container.cpp
index 814a696..5dd2ec5 100644
--- a/src/framework/internal_capability_container.cpp
+++ b/src/framework/internal_capability_container.cpp
@@ -62,8 +62,13 @@ namespace uima {
       Capability::TyVecCapabilityTofs const & vecTofs,
       Capability::TyVecCapabilityLanguages const & vecLangs,
       TypeSystem const & typeSystem) {
+      // a capability which does not list any language supports the unspecified language
+      Capability::TyVecCapabilityLanguages vecSupported(vecLangs);
+      if (vecSupported.empty()) {
+        vecSupported.push_back(icu::UnicodeString("x-unspecified"));
+      }
       Capability::TyVecCapabilityLanguages::const_iterator itLang;
-      for (itLang = vecLangs.begin(); itLang != vecLangs.end(); ++itLang) {
+      for (itLang = vecSupported.begin(); itLang != vecSupported.end(); ++itLang) {
         // create a language object based on the lang string
         Language lang((UnicodeStringRef(*itLang)));
         // Special workaround code for the new way to specify the unspecified language
@@ -230,7 +235,8 @@ namespace uima {
       }
 
       copyEntriesForUnspecifedLanguage();
-      if (hasEmptyOutputTypeOrFeatures(Language(Language::UNSPECIFIED))) {
+      // without any capability there are no outputs for any language
+      if (vecCap.empty() || hasEmptyOutputTypeOrFeatures(Language(Language::UNSPECIFIED))) {
         iv_bHasEmptyOutputTOFsForUnspecifiedLang = true;
       }
 
@@ -239,13 +245,7 @@ namespace uima {
     }
 
     void CapabilityContainer::copyEntriesForUnspecifedLanguage() {
-      if (iv_psetInputTOFsForUnspecifiedLang == NULL) {
-        // if it is not in the input it can't be in the output either
-        assert(findOutputTOFs(Language(Language::UNSPECIFIED)) == NULL);
-        return;
-      }
-      assert(EXISTS(iv_psetInputTOFsForUnspecifiedLang));
-      if (iv_psetInputTOFsForUnspecifiedLang->size() != 0) {
+      if (iv_psetInputTOFsForUnspecifiedLang != NULL && iv_psetInputTOFsForUnspecifiedLang->size() != 0) {
         TyMapLang2TypeOrFeatures::iterator it;
         for (it = iv_mapLang2InputTypesOrFeatures.begin(); it != iv_mapLang2InputTypesOrFeatures.end(); ++it) {
           if (&(*it).second != iv_psetInputTOFsForUnspecifiedLang) { // don't append onto ourselves
@@ -263,12 +263,12 @@ namespace uima {
           }
         }
 
-        // Now do the same copying for the output
-
-        // if it is in the input it must be in the output too
-        assert(findOutputTOFs(Language(Language::UNSPECIFIED)) != NULL);
-        assert(EXISTS(iv_psetOutputTOFsForUnspecifiedLang));
+      }
 
+      // Now do the same copying for the output: a capability may well
+      // declare outputs without declaring any input
+      if (iv_psetOutputTOFsForUnspecifiedLang != NULL && iv_psetOutputTOFsForUnspecifiedLang->size() != 0) {
+        TyMapLang2TypeOrFeatures::iterator it;
         for (it = iv_mapLang2OutputTypesOrFeatures.begin(); it != iv_mapLang2OutputTypesOrFeatures.end(); ++it) {
           if (&(*it).second != iv_psetOutputTOFsForUnspecifiedLang) { // don't append onto ourselves
             if ((*it).second.size() > 0) { // don't append to empty
-- 
2.43.0


From ed0f2b6a98fee593582a32f12794e91f3dfacf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:15 +0000
Subject: [PATCH 113/143] fix: a CAS is linked to a component only while that
 component processes it

---
 src/cas/cas.cpp                             |  4 ++++
 src/cas/uima/cas.hpp                        |  6 ++++++
 src/framework/internal_primitive_engine.cpp | 21 +++++++++++++++++++--
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index c718427..4568177 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1130,6 +1130,10 @@ namespace uima {
     iv_baseCas->iv_componentInfo = info;
   }
 
+  AnnotatorContext* CAS::getCurrentComponentInfo() const {
+    return iv_baseCas->iv_componentInfo;
+  }
+
   void CAS::registerInitialSofa() {
     iv_baseCas->initialSofaCreated = true;
   }
diff --git a/src/cas/uima/cas.hpp b/src/cas/uima/cas.hpp
index b23de19..128780f 100644
--- a/src/cas/uima/cas.hpp
+++ b/src/cas/uima/cas.hpp
@@ -661,6 +661,12 @@ namespace uima {
      */
     void setCurrentComponentInfo(AnnotatorContext* info);
 
+    /**
+    * Get the information set with setCurrentComponentInfo(), NULL when no
+    * component is processing this CAS.
+    */
+    AnnotatorContext* getCurrentComponentInfo() const;
+
     /**
      * Get an iterator over all SofaFS
      * 
diff --git a/src/framework/internal_primitive_engine.cpp b/src/framework/internal_primitive_engine.cpp
index b7c2b99..cd41bda 100644
--- a/src/framework/internal_primitive_engine.cpp
+++ b/src/framework/internal_primitive_engine.cpp
@@ -170,6 +170,23 @@ namespace uima {
 
     }
 
+    /** Links a CAS to the component processing it, and restores the previous link at the end. */
+    class ComponentInfoScope {
+    private:
+      CAS & iv_cas;
+      AnnotatorContext * iv_previous;
+      ComponentInfoScope(ComponentInfoScope const &);
+      ComponentInfoScope & operator=(ComponentInfoScope const &);
+    public:
+      ComponentInfoScope(CAS & cas, AnnotatorContext & info)
+          : iv_cas(cas), iv_previous(cas.getCurrentComponentInfo()) {
+        iv_cas.setCurrentComponentInfo(&info);
+      }
+      ~ComponentInfoScope() {
+        iv_cas.setCurrentComponentInfo(iv_previous);
+      }
+    };
+
     TyErrorId PrimitiveEngine::processImpl(CAS & cas, ResultSpecification const & crResultSpec) {
       util::Trace trace(util::enTraceDetailLow, UIMA_TRACE_ORIGIN, UIMA_TRACE_COMPID_ENGINE);
 
@@ -200,8 +217,8 @@ namespace uima {
         }
       }
       if (bCallAnnotator) {
-        // link CAS to current component
-        cas.setCurrentComponentInfo(&getAnnotatorContext());
+        // link CAS to current component while it is processing
+        ComponentInfoScope scope(cas, getAnnotatorContext());
         return iv_pAnnotator->processDocument(cas, crResultSpec);
       }
       // if annotator should not be called is not really an error
-- 
2.43.0


From f29c680834f7b9d90189cbd298023908e519395e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:51 +0000
Subject: [PATCH 114/143] fix: release the annotator when its destroy() throws

---
 src/framework/annotator.cpp                 | 11 ++++++++++-
 src/framework/internal_primitive_engine.cpp |  8 +++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/framework/annotator.cpp b/src/framework/annotator.cpp
index e4ba553..ac50b8a 100644
--- a/src/framework/annotator.cpp
+++ b/src/framework/annotator.cpp
@@ -384,7 +384,16 @@ namespace uima {
     assert(EXISTS(iv_hUserData));
     clTrace.dump("DestroyAnnotator...");
     UIMA_ANNOTATOR_TIMING(iv_clTimerDeInit.start());
-    TyErrorId utRetVal = iv_hUserData->destroy();
+    TyErrorId utRetVal;
+    try {
+      utRetVal = iv_hUserData->destroy();
+    } catch (...) {
+      // the annotator gets no second chance
+      UIMA_ANNOTATOR_TIMING(iv_clTimerDeInit.stop());
+      delete iv_hUserData;
+      iv_hUserData = 0;
+      throw;
+    }
 
     UIMA_ANNOTATOR_TIMING(iv_clTimerDeInit.stop());
     clTrace.dump(_TEXT("rc"), utRetVal);
diff --git a/src/framework/internal_primitive_engine.cpp b/src/framework/internal_primitive_engine.cpp
index cd41bda..e12b67f 100644
--- a/src/framework/internal_primitive_engine.cpp
+++ b/src/framework/internal_primitive_engine.cpp
@@ -232,7 +232,13 @@ namespace uima {
       if (iv_pAnnotator != NULL ) {
         if (iv_pAnnotator->isInitialized()) {
           assert( iv_pAnnotator->isValid() );
-          utErrorId = iv_pAnnotator->deInit();
+          try {
+            utErrorId = iv_pAnnotator->deInit();
+          } catch (Exception & rclException) {
+            // everything else must still be released
+            getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
+            utErrorId = rclException.getErrorInfo().getErrorId();
+          }
         }
         delete iv_pAnnotator;
         iv_pAnnotator = NULL;
-- 
2.43.0


From 91de2b701c698a34b2d4306fbf4efde929d32a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:07 +0000
Subject: [PATCH 115/143] fix: ErrorMessage: insert unsigned parameters above
 the signed range as they are

---
 src/framework/exceptions.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/framework/exceptions.cpp b/src/framework/exceptions.cpp
index f2a6424..5bed517 100644
--- a/src/framework/exceptions.cpp
+++ b/src/framework/exceptions.cpp
@@ -120,8 +120,7 @@ namespace uima {
   ) :
       iv_utMsgId(utMsgId) {
     assert( iv_utMsgId != 0 );
-    string s;
-    iv_vecParams.push_back(long2String((int) uiParam1, s));
+    addParam(uiParam1);
   }
 
 
@@ -143,8 +142,7 @@ namespace uima {
   ) :
       iv_utMsgId(utMsgId) {
     assert( iv_utMsgId != 0 );
-    string s;
-    iv_vecParams.push_back(long2String((long) ulParam1, s));
+    addParam(ulParam1);
   }
 
 ///Constructor with a single double parameter
-- 
2.43.0


From 12e03fe30a1e98148f8a3677ba632fd01c76448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:00 +0000
Subject: [PATCH 116/143] fix: LogFacility: every facility reports its own
 origin, not only the first

---
 src/framework/log.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index a408b78..6a2c279 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -245,11 +245,11 @@ namespace uima {
       iv_logStream(*this, LogStream::EnMessage),
       vecLoggers(ResourceManager::getInstance().getLoggers()),
       iv_logLevel(ResourceManager::getInstance().getLoggingLevel()) {
+   UnicodeStringRef ref(crEngineName);
+   ref.extract(iv_strOrigin, CCSID::getDefaultName());
    if (logPool == NULL) {
       apr_status_t rv = apr_pool_create( &logPool,NULL );
       if ( rv == APR_SUCCESS ) {
-        UnicodeStringRef ref(crEngineName);
-        ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
         apr_thread_mutex_create(&logMutex,APR_THREAD_MUTEX_UNNESTED, logPool);
       } else {
         UIMA_EXC_THROW_NEW(ExcOutOfMemory,
@@ -268,11 +268,11 @@ namespace uima {
       vecLoggers(ResourceManager::getInstance().getLoggers()),
       iv_logLevel(crLoggingLevel) {
 
+    UnicodeStringRef ref(crEngineName);
+    ref.extract(iv_strOrigin, CCSID::getDefaultName());
     if (logPool == NULL) {
       apr_status_t rv = apr_pool_create( &logPool,NULL );
       if ( rv == APR_SUCCESS ) {
-        UnicodeStringRef ref(crEngineName);
-        ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
         apr_thread_mutex_create(&logMutex,APR_THREAD_MUTEX_UNNESTED, logPool);
       } else {
         UIMA_EXC_THROW_NEW(ExcOutOfMemory,
-- 
2.43.0


From cb2acec5c60a46cd46aea31c5d06760b5f236c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:14 +0000
Subject: [PATCH 117/143] fix: LogFacility: release the log mutex when a logger
 throws

---
 src/framework/log.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index 6a2c279..e347754 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -151,9 +151,14 @@ namespace uima {
     apr_thread_mutex_lock(logMutex);
     string method="";
     if (isLoggable(enType)) {
-      for (int i=0; i < vecLoggers.size(); i++) {
-        vecLoggers.at(i)->log(enType,this->iv_strOrigin,
-                                     method,cpszMsg,lUserCode);
+      try {
+        for (int i=0; i < vecLoggers.size(); i++) {
+          vecLoggers.at(i)->log(enType,this->iv_strOrigin,
+                                       method,cpszMsg,lUserCode);
+        }
+      } catch (...) {
+        apr_thread_mutex_unlock(logMutex);
+        throw;
       }
     }
     apr_thread_mutex_unlock(logMutex);
-- 
2.43.0


From e975d9a13f3b8ae8dd03cd5b01664014d2fdee43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:27 +0000
Subject: [PATCH 118/143] fix: LogFacility: pending stream content is written
 once, with its own entry type

---
 src/framework/log.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index e347754..7e046c6 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -226,13 +226,12 @@ namespace uima {
   LogStream & LogStream::flush() {
     this->stringstream::flush();
     iv_pLogFacility->flushLogStream();
-    str("");
     return (*this);
   }
 
   LogStream & LogFacility::getLogStream(LogStream::EnEntryType enLogEntryType) {
+    flushLogStream();                                  // with its own entry type
     iv_logStream.iv_enLogEntryType = enLogEntryType;
-    flushLogStream();
     return iv_logStream;
   }
 
@@ -241,6 +240,7 @@ namespace uima {
     if (strMsg.size() == 0) {
       return;
     }
+    iv_logStream.str("");
     log(iv_logStream.iv_enLogEntryType, strMsg.c_str());
   }
 
-- 
2.43.0


From 9a550eff8ec070e13112e2bd017c1a5d87283df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:11 +0000
Subject: [PATCH 119/143] fix: LogFacility: log messages completely that
 contain NUL characters

---
 src/framework/log.cpp      | 16 ++++++++--------
 src/framework/uima/log.hpp | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index 7e046c6..913985d 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -145,7 +145,7 @@ namespace uima {
     return(0);                                         /* shutup compiler */
   }
 
-  void LogFacility::doLog(LogStream::EnEntryType enType, const TCHAR * cpszMsg, long lUserCode) const
+  void LogFacility::doLog(LogStream::EnEntryType enType, const string & crMsg, long lUserCode) const
   /* ----------------------------------------------------------------------- */
   {
     apr_thread_mutex_lock(logMutex);
@@ -154,7 +154,7 @@ namespace uima {
       try {
         for (int i=0; i < vecLoggers.size(); i++) {
           vecLoggers.at(i)->log(enType,this->iv_strOrigin,
-                                       method,cpszMsg,lUserCode);
+                                       method,crMsg,lUserCode);
         }
       } catch (...) {
         apr_thread_mutex_unlock(logMutex);
@@ -177,17 +177,17 @@ namespace uima {
     iv_logLevel = enType;
   }
 
-  void LogFacility::log(LogStream::EnEntryType enType, const TCHAR * cpszMsg, long lUserCode) const
+  void LogFacility::log(LogStream::EnEntryType enType, const string & crMsg, long lUserCode) const
   /* ----------------------------------------------------------------------- */
   {
-    doLog(enType, cpszMsg, lUserCode);
+    doLog(enType, crMsg, lUserCode);
 
     if (enType == LogStream::EnError) {
       LogFacility * pclThis = CONST_CAST(LogFacility *, this);
       assert(pclThis == this);
       //remember last error as string/number
       pclThis->iv_lLastUserCode = lUserCode;
-      pclThis->iv_strLastError  = string(cpszMsg);
+      pclThis->iv_strLastError  = crMsg;
       //reset error info object
       pclThis->iv_errInfo.reset();
     }
@@ -197,7 +197,7 @@ namespace uima {
   void  LogFacility::log(LogStream::EnEntryType enType, ErrorInfo const & errInfo) const
   /* ----------------------------------------------------------------------- */
   {
-    doLog(enType, errInfo.asString().c_str());
+    doLog(enType, errInfo.asString());
 
     LogFacility * pclThis = CONST_CAST(LogFacility *, this);
     assert(pclThis == this);
@@ -216,7 +216,7 @@ namespace uima {
     string strMsg;
     UnicodeStringRef ref(ustrMsg);
     ref.extract(strMsg, CCSID::getDefaultName());
-    log(enType, strMsg.c_str(), lUserCode);
+    log(enType, strMsg, lUserCode);
   }
 
   /* ----------------------------------------------------------------------- */
@@ -241,7 +241,7 @@ namespace uima {
       return;
     }
     iv_logStream.str("");
-    log(iv_logStream.iv_enLogEntryType, strMsg.c_str());
+    log(iv_logStream.iv_enLogEntryType, strMsg);
   }
 
 
diff --git a/src/framework/uima/log.hpp b/src/framework/uima/log.hpp
index 4f0e56f..fa34edb 100644
--- a/src/framework/uima/log.hpp
+++ b/src/framework/uima/log.hpp
@@ -270,8 +270,8 @@ namespace uima {
     
     /* --- functions --- */
     TyMessageId       getTypeAsMessageId(LogStream::EnEntryType enType) const;
-    void              doLog(LogStream::EnEntryType enType, const TCHAR * cpszMsg, long lUserCode = 0) const;
-    void              log(LogStream::EnEntryType enType, const TCHAR * cpszMsg, long lUserCode = 0) const;
+    void              doLog(LogStream::EnEntryType enType, const std::string & crMsg, long lUserCode = 0) const;
+    void              log(LogStream::EnEntryType enType, const std::string & crMsg, long lUserCode = 0) const;
     void              log(LogStream::EnEntryType enType, const icu::UnicodeString & crclMessage, long lUserCode = 0) const;
     void              log(LogStream::EnEntryType enType, ErrorInfo const & errInfo) const;
 
@@ -328,13 +328,13 @@ namespace uima {
   inline void LogFacility::logMessage(const TCHAR * cpszMessage, long lUserCode) const
   /* ----------------------------------------------------------------------- */
   {
-    log(LogStream::EnMessage, cpszMessage, lUserCode);
+    log(LogStream::EnMessage, std::string(cpszMessage), lUserCode);
   }
 
   inline void LogFacility::logMessage(const std::string & crclMessage, long lUserCode) const
   /* ----------------------------------------------------------------------- */
   {
-    log(LogStream::EnMessage, crclMessage.c_str(), lUserCode);
+    log(LogStream::EnMessage, crclMessage, lUserCode);
   }
 
   inline void LogFacility::logMessage(const icu::UnicodeString & crclMessage, long lUserCode) const
@@ -346,13 +346,13 @@ namespace uima {
   inline void LogFacility::logWarning(const TCHAR * cpszMessage, long lUserCode) const
   /* ----------------------------------------------------------------------- */
   {
-    log(LogStream::EnWarning, cpszMessage, lUserCode);
+    log(LogStream::EnWarning, std::string(cpszMessage), lUserCode);
   }
 
   inline void LogFacility::logWarning(const std::string & crclMessage, long lUserCode) const
   /* ----------------------------------------------------------------------- */
   {
-    log(LogStream::EnWarning, crclMessage.c_str(), lUserCode);
+    log(LogStream::EnWarning, crclMessage, lUserCode);
   }
 
   inline void LogFacility::logWarning(const icu::UnicodeString & crclMessage, long lUserCode) const
@@ -364,13 +364,13 @@ namespace uima {
   inline void LogFacility::logError(const TCHAR * cpszMessage, long lUserCode) const
   /* ----------------------------------------------------------------------- */
   {
-    log(LogStream::EnError, cpszMessage, lUserCode);
+    log(LogStream::EnError, std::string(cpszMessage), lUserCode);
   }
 
   inline void LogFacility::logError(const std::string & crclMessage, long lUserCode) const
   /* ----------------------------------------------------------------------- */
   {
-    log(LogStream::EnError, crclMessage.c_str(), lUserCode);
+    log(LogStream::EnError, crclMessage, lUserCode);
   }
 
   inline void LogFacility::logError(const icu::UnicodeString & crclMessage, long lUserCode) const
-- 
2.43.0


From 0a0d2fbed1e626f3eead0ad3e656f17b86d3de11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:51 +0000
Subject: [PATCH 120/143] fix: LogFacility: getLastErrorAsCStr() does not
 change the last error

---
 src/framework/log.cpp      | 4 ++--
 src/framework/uima/log.hpp | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index 913985d..e9e3dbc 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -300,8 +300,8 @@ namespace uima {
     if (errInfo.getErrorId() == UIMA_ERR_NONE) {
       return (NULL);
     }
-    pclThis->iv_strLastError = getLastError().asString();
-    return(iv_strLastError.c_str());
+    pclThis->iv_strLastErrorText = errInfo.asString();
+    return(iv_strLastErrorText.c_str());
   }
 
   ErrorInfo const & LogFacility::getLastError() const {
diff --git a/src/framework/uima/log.hpp b/src/framework/uima/log.hpp
index fa34edb..1ba7a99 100644
--- a/src/framework/uima/log.hpp
+++ b/src/framework/uima/log.hpp
@@ -262,6 +262,7 @@ namespace uima {
     /* --- variables --- */
     std::string       iv_strOrigin;
     std::string       iv_strLastError;
+    std::string       iv_strLastErrorText;   // buffer for getLastErrorAsCStr()
     long              iv_lLastUserCode;
     ErrorInfo         iv_errInfo;
     LogStream         iv_logStream;
-- 
2.43.0


From fc2a7552742af39aaffb5ba58fd53201d672c572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:22 +0000
Subject: [PATCH 121/143] fix: LogFacility: create a new log mutex after the
 ResourceManager was deleted

---
 src/framework/log.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index e9e3dbc..2a8694e 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -51,6 +51,14 @@
 const size_t                  UIMA_LOG_STATIC_CONVERSION_BUFSIZE = 1024;
 static apr_pool_t         * logPool=0;
 static apr_thread_mutex_t * logMutex=0;
+
+// apr_terminate() destroys the pool together with the mutex in it
+static apr_status_t resetLogPool(void *) {
+  logPool = 0;
+  logMutex = 0;
+  return APR_SUCCESS;
+}
+
 using namespace std;
 /* ----------------------------------------------------------------------- */
 /*       Forward declarations                                              */
@@ -256,6 +264,7 @@ namespace uima {
       apr_status_t rv = apr_pool_create( &logPool,NULL );
       if ( rv == APR_SUCCESS ) {
         apr_thread_mutex_create(&logMutex,APR_THREAD_MUTEX_UNNESTED, logPool);
+        apr_pool_cleanup_register(logPool, NULL, resetLogPool, apr_pool_cleanup_null);
       } else {
         UIMA_EXC_THROW_NEW(ExcOutOfMemory,
           UIMA_ERR_ENGINE_OUT_OF_MEMORY,
@@ -279,6 +288,7 @@ namespace uima {
       apr_status_t rv = apr_pool_create( &logPool,NULL );
       if ( rv == APR_SUCCESS ) {
         apr_thread_mutex_create(&logMutex,APR_THREAD_MUTEX_UNNESTED, logPool);
+        apr_pool_cleanup_register(logPool, NULL, resetLogPool, apr_pool_cleanup_null);
       } else {
         UIMA_EXC_THROW_NEW(ExcOutOfMemory,
           UIMA_ERR_ENGINE_OUT_OF_MEMORY,
-- 
2.43.0


From acc98fd79a7ff7351754a54d7ca7fd4f6dd4bbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:00 +0000
Subject: [PATCH 122/143] fix: AnnotatorContext::isParameterDefined() without a
 group considers the default group

---
 src/framework/taespecifier.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index 7d10c0c..fc6d6aa 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -496,6 +496,9 @@ namespace uima {
   **/
   bool AnalysisEngineMetaData::isParameterDefined(const icu::UnicodeString & paramName,
       const icu::UnicodeString & ancKey) const {
+    if (hasGroups() && hasDefaultGroup()) {
+      return isParameterDefined(getDefaultGroupName(), paramName, ancKey);
+    }
     return isParameterDefined(CONFIG_GROUP_NAME_WHEN_NO_GROUPS, paramName, ancKey);
   }
   /**
-- 
2.43.0


From 59726f18a73ba71ed5e6185098ebe71c4a2692b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:15 +0000
Subject: [PATCH 123/143] fix: configuration lookup: a parameter hidden from a
 delegate in the requested group may be visible in a fallback group

---
 src/framework/taespecifier.cpp | 21 +--------------------
 1 file changed, 1 insertion(+), 20 deletions(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index fc6d6aa..5816731 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -399,26 +399,7 @@ namespace uima {
       if (isParameterDefined(groupName, paramName, ancKey)) {
         return value;
       } else {
-        //return UIMA_ERR_CONFIG_PARAM_NOT_DEFINED_IN_GROUP;
-        if (hasGroups()) {
-          ErrorMessage errmsgContext(UIMA_MSG_ID_EXCON_CONFIG_PARAM_IN_GROUP_SEARCH);
-          errmsgContext.addParam(paramName);
-          errmsgContext.addParam(groupName);
-          ErrorMessage errmsgExc(UIMA_MSG_ID_EXC_CONFIG_PARAM_NOT_DEFINED_IN_GROUP);
-          errmsgExc.addParam(paramName);
-          errmsgExc.addParam(groupName);
-          UIMA_EXC_THROW_NEW(ConfigParamLookupException,
-                             UIMA_ERR_CONFIG_PARAM_NOT_DEFINED_IN_GROUP,
-                             errmsgExc,
-                             errmsgContext,
-                             ErrorInfo::recoverable);
-        } else {
-          UIMA_EXC_THROW_NEW(ConfigParamLookupException,
-                             UIMA_ERR_CONFIG_PARAM_NOT_DEFINED,
-                             ErrorMessage(UIMA_MSG_ID_EXC_CONFIG_PARAM_NOT_DEFINED, paramName),
-                             ErrorMessage(UIMA_MSG_ID_EXCON_CONFIG_PARAM_SEARCH, paramName),
-                             ErrorInfo::recoverable);
-        }
+        // not visible here: the fallback groups may still have it, else getNameValuePair reports the error
         return NULL;
       }
     } else {
-- 
2.43.0


From 7ea4edcf31dad36f00731d94aba53c8474507203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:47 +0000
Subject: [PATCH 124/143] fix: assignValue() sets a parameter at the level
 where extractValue() looks for it

---
 src/framework/annotator_context.cpp      | 38 ++++++++++++++++++++++--
 src/framework/uima/annotator_context.hpp | 10 +++++++
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/src/framework/annotator_context.cpp b/src/framework/annotator_context.cpp
index 3b6debc..2357d60 100644
--- a/src/framework/annotator_context.cpp
+++ b/src/framework/annotator_context.cpp
@@ -519,27 +519,59 @@ namespace uima {
   }
 
   TyErrorId AnnotatorContext::setNameValuePair(const NameValuePair & nvPair) {
+    return setNameValuePair(nvPair, icu::UnicodeString());
+  }
+
+  TyErrorId AnnotatorContext::setNameValuePair(const icu::UnicodeString & groupName,
+      const NameValuePair & nvPair) {
+    return setNameValuePair(groupName, nvPair, iv_pTaeSpecifier->getSearchStrategy(), icu::UnicodeString());
+  }
+
+  TyErrorId AnnotatorContext::setNameValuePair(const NameValuePair & nvPair,
+      const icu::UnicodeString & ancKey) {
 
     TyErrorId errId=UIMA_ERR_CONFIG_INVALID_PARAM_NAME;
     if (EXISTS(iv_pParentAnC)) {
-      errId = iv_pParentAnC->setNameValuePair(nvPair);
+      try {
+        // throws if findNameValuePair() does not consult the parent
+        iv_pParentAnC->iv_pTaeSpecifier->getNameValuePair(nvPair.getName(), iv_AnCKey);
+        errId = iv_pParentAnC->setNameValuePair(nvPair, iv_AnCKey);
+      } catch (ConfigException & e) {
+        errId = e.getErrorInfo().getErrorId();
+      }
     }
 
     if (errId != UIMA_ERR_NONE) {//there's either no parent or the nvPair couldn't be set at the parent
+      if (ancKey.length() > 0
+          && ! iv_pTaeSpecifier->getAnalysisEngineMetaData()->isParameterDefined(nvPair.getName(), ancKey)) {
+        return UIMA_ERR_CONFIG_INVALID_PARAM_NAME;
+      }
       errId = iv_pTaeSpecifier->setNameValuePair(nvPair);
     }
     return errId;
   }
 
   TyErrorId AnnotatorContext::setNameValuePair(const icu::UnicodeString & groupName,
-      const NameValuePair & nvPair) {
+      const NameValuePair & nvPair,
+      AnalysisEngineMetaData::EnSearchStrategy strategy,
+      const icu::UnicodeString & ancKey) {
 
     TyErrorId errId=UIMA_ERR_CONFIG_INVALID_PARAM_NAME;
     if (EXISTS(iv_pParentAnC)) {
-      errId = iv_pParentAnC->setNameValuePair(groupName, nvPair);
+      try {
+        // throws if findNameValuePair() does not consult the parent
+        iv_pParentAnC->iv_pTaeSpecifier->getNameValuePair(groupName, nvPair.getName(), strategy, iv_AnCKey);
+        errId = iv_pParentAnC->setNameValuePair(groupName, nvPair, strategy, iv_AnCKey);
+      } catch (ConfigException & e) {
+        errId = e.getErrorInfo().getErrorId();
+      }
     }
 
     if (errId != UIMA_ERR_NONE) {//there's either no parent or the nvPair couldn't be set at the parent
+      if (ancKey.length() > 0
+          && ! iv_pTaeSpecifier->getAnalysisEngineMetaData()->isParameterDefined(groupName, nvPair.getName(), ancKey)) {
+        return UIMA_ERR_CONFIG_INVALID_PARAM_NAME;
+      }
       errId = iv_pTaeSpecifier->setNameValuePair(groupName, nvPair);
     }
     return errId;
diff --git a/src/framework/uima/annotator_context.hpp b/src/framework/uima/annotator_context.hpp
index 3198c7e..c397d1d 100644
--- a/src/framework/uima/annotator_context.hpp
+++ b/src/framework/uima/annotator_context.hpp
@@ -440,6 +440,16 @@ namespace uima {
     TyErrorId setNameValuePair(const icu::UnicodeString & groupName,
                                const NameValuePair & nvPair);
 
+    /**
+    * As above, on behalf of the delegate with key ancKey: only the ancestors in which
+    * findNameValuePair looks for the value of the delegate take part.
+    **/
+    TyErrorId setNameValuePair(const NameValuePair & nvPair, const icu::UnicodeString & ancKey);
+    TyErrorId setNameValuePair(const icu::UnicodeString & groupName,
+                               const NameValuePair & nvPair,
+                               AnalysisEngineMetaData::EnSearchStrategy strategy,
+                               const icu::UnicodeString & ancKey);
+
     LogFacility * iv_pLogger;
     AnnotatorContext * iv_pParentAnC;
     //the key to this AnC in the parent AnC
-- 
2.43.0


From 7f2f8c43865ab79d6a1001e777e255bfd13f4205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:45 +0000
Subject: [PATCH 125/143] fix: XCASWriter keeps the current sofa number in a
 local variable

---
 src/cas/xmlwriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index 68e253d..e4e6deb 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -56,7 +56,6 @@ XERCES_CPP_NAMESPACE_USE
 char const * gs_cpszFSTagName = "fs";
 char const * gs_cpszFeatTagName = "feat";
 char const * gs_cpszXslFileName = "fsdump.xsl";
-int sofa;
 
 /* ----------------------------------------------------------------------- */
 /*       Forward declarations                                              */
@@ -710,6 +709,7 @@ namespace uima {
     ixRep = &crCASImpl.getIndexRepository();
 //       }
 
+    int sofa = 0;
     int numViews = casp->getNumViews();
     set<FeatureStructure> referencedFSs;
     for (int view=0; view<=numViews; view++) {
-- 
2.43.0


From d4ea61a99069bee64ba46d2aef9fd7f48813f1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:58 +0000
Subject: [PATCH 126/143] fix: LogFacility updates its last error under the log
 mutex

---
 src/framework/log.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index 2a8694e..881d8b2 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -193,11 +193,13 @@ namespace uima {
     if (enType == LogStream::EnError) {
       LogFacility * pclThis = CONST_CAST(LogFacility *, this);
       assert(pclThis == this);
+      apr_thread_mutex_lock(logMutex);
       //remember last error as string/number
       pclThis->iv_lLastUserCode = lUserCode;
       pclThis->iv_strLastError  = crMsg;
       //reset error info object
       pclThis->iv_errInfo.reset();
+      apr_thread_mutex_unlock(logMutex);
     }
   }
 
@@ -209,12 +211,14 @@ namespace uima {
 
     LogFacility * pclThis = CONST_CAST(LogFacility *, this);
     assert(pclThis == this);
+    apr_thread_mutex_lock(logMutex);
     //remember last error as error info object
     pclThis->iv_errInfo = errInfo;
     //reset string/number
     // MSV6 compile error: pclThis->iv_strLastError.clear();
     pclThis->iv_strLastError = std::string();
     pclThis->iv_lLastUserCode = 0;
+    apr_thread_mutex_unlock(logMutex);
   }
 
 
-- 
2.43.0


From de3f6299acfeacb25f7ef0d959ae8cb76782aff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:12 +0000
Subject: [PATCH 127/143] fix: ResourceManager::getResource() is guarded by a
 mutex

---
 src/framework/resmgr.cpp | 52 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 2 deletions(-)

diff --git a/src/framework/resmgr.cpp b/src/framework/resmgr.cpp
index 9d49cb1..76da5cf 100644
--- a/src/framework/resmgr.cpp
+++ b/src/framework/resmgr.cpp
@@ -35,6 +35,9 @@
 //#define DEBUG_VERBOSE
 #include "uima/resmgr.hpp"
 #include "apr.h"
+#include "apr_general.h"
+#include "apr_pools.h"
+#include "apr_thread_mutex.h"
 
 /* ----------------------------------------------------------------------- */
 /*       Implementation dependencies                                       */
@@ -127,6 +130,48 @@ namespace uima {
   ResourceManager * ResourceManager::cv_pclSingletonInstance = 0;
   TyProcedure               iv_traceProc;
 
+  // guards the resources of the ResourceManager
+  static apr_pool_t         * resourcePool = 0;
+  static apr_thread_mutex_t * resourceMutex = 0;
+
+  // apr_terminate() destroys the pool together with the mutex in it
+  static apr_status_t resetResourcePool(void *) {
+    resourcePool = 0;
+    resourceMutex = 0;
+    return APR_SUCCESS;
+  }
+
+  static void createResourceMutex() {
+    if (resourcePool == NULL && apr_pool_create(&resourcePool, NULL) == APR_SUCCESS) {
+      apr_thread_mutex_create(&resourceMutex, APR_THREAD_MUTEX_NESTED, resourcePool);
+      apr_pool_cleanup_register(resourcePool, NULL, resetResourcePool, apr_pool_cleanup_null);
+    }
+  }
+
+  static void destroyResourceMutex() {
+    if (resourcePool != NULL) {
+      apr_pool_destroy(resourcePool);
+    }
+  }
+
+  class ResourceLock {
+  public:
+    ResourceLock() {
+      if (resourceMutex != NULL) {
+        apr_thread_mutex_lock(resourceMutex);
+      }
+    }
+    ~ResourceLock() {
+      if (resourceMutex != NULL) {
+        apr_thread_mutex_unlock(resourceMutex);
+      }
+    }
+  private:
+    ResourceLock(ResourceLock const &);
+    ResourceLock & operator=(ResourceLock const &);
+  }
+  ; /* ResourceLock */
+
   /* see docu for class ResourceManagerAutomaticInstanceDestructor above */
   static ResourceManagerAutomaticInstanceDestructor gs_clResourceManagerAutomaticInstanceDestructor;
 
@@ -453,7 +498,8 @@ namespace uima {
 //      assertWithMsg(false, "Implement caching functionality");
     icu::UnicodeString const & crKind = crFactory.getKind();
     UIMA_TPRINT("Creating resource with kind " << crKind << " and key " << crKey);
-    // acquire mutex lock
+    // engines may be created in several threads
+    ResourceLock lock;
 
     TyResourceList & rResList = iv_resources[crKind];
     ResourceABase * pResource = NULL;
@@ -475,7 +521,6 @@ namespace uima {
       }
       rResList.push_back(pResource);
     }
-    // release mutex lock
     UIMA_TPRINT("...resource created: " << pResource);
     assert( EXISTS( pResource ) );
     return pResource;
@@ -636,6 +681,7 @@ namespace uima {
                            ErrorInfo::unrecoverable);
       }
 
+      createResourceMutex();
       cv_pclSingletonInstance = new ResourceManager(cpszInstance, cpszProductPrefix);
       assert(EXISTS(cv_pclSingletonInstance));
       // Initialize the ICU
@@ -730,6 +776,8 @@ namespace uima {
       delete cv_pclSingletonInstance;
       cv_pclSingletonInstance = 0;
 
+      destroyResourceMutex();
+
       // Terminate apr (undo matching apr_initialize)
       apr_terminate();
 //#if !defined( NDEBUG ) && defined(_MSC_VER) && defined(_CRTDBG_MAP_ALLOC)   
-- 
2.43.0


From 34147b3dc4f2e5fe73ac12b95b48856fbc9e63a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:48 +0000
Subject: [PATCH 128/143] fix: XMLTypeSystemReader releases its error handler
 and file name when reading fails

---
 src/cas/xmltypesystemreader.cpp | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/cas/xmltypesystemreader.cpp b/src/cas/xmltypesystemreader.cpp
index 213deec..2d1e941 100644
--- a/src/cas/xmltypesystemreader.cpp
+++ b/src/cas/xmltypesystemreader.cpp
@@ -279,18 +279,11 @@ namespace uima {
   }
 
   void XMLTypeSystemReader::readFile(icu::UnicodeString const & fileName, icu::UnicodeString const & creatorID) {
-    size_t uiLen = fileName.length();
-    UChar* arBuffer = new UChar[uiLen + 1];
-    assert( arBuffer != NULL );
-
-    fileName.extract(0, uiLen, arBuffer);
-    arBuffer[uiLen] = 0; // terminate the buffer with 0
+    icu::UnicodeString ustrFileName(fileName);
 
-    LocalFileInputSource fileIS((XMLCh const *) arBuffer );
+    LocalFileInputSource fileIS((XMLCh const *) ustrFileName.getTerminatedBuffer() );
 
     read(fileIS, creatorID );
-
-    delete[] arBuffer;
   }
 
 
@@ -307,13 +300,13 @@ namespace uima {
     parser.setDoNamespaces(false);
     parser.setDoSchema(false);
 
-    bool bHasOwnErrorHandler = false;
+    // used unless the caller provided a handler
+    XMLErrorHandler ownErrorHandler;
     if (iv_pXMLErrorHandler == NULL) {
-      iv_pXMLErrorHandler = new XMLErrorHandler();
-      assert( iv_pXMLErrorHandler != NULL );
-      bHasOwnErrorHandler = true;
+      parser.setErrorHandler(&ownErrorHandler);
+    } else {
+      parser.setErrorHandler(iv_pXMLErrorHandler);
     }
-    parser.setErrorHandler(iv_pXMLErrorHandler);
 
     parser.parse( crInputSource);
     DOMDocument* doc = parser.getDocument();
@@ -364,11 +357,6 @@ namespace uima {
       ++i;
     }
 
-    if (bHasOwnErrorHandler) {
-      assert( EXISTS(iv_pXMLErrorHandler) );
-      delete iv_pXMLErrorHandler;
-      iv_pXMLErrorHandler = NULL;
-    }
     UIMA_TPRINT("Exiting read()");
   }
 
-- 
2.43.0


From 2c4f96ac610bacd973d5881261feef3c01ad7329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:59 +0000
Subject: [PATCH 129/143] fix: release the library loader when an annotator
 library cannot be loaded

---
 src/framework/res_annotator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/framework/res_annotator.cpp b/src/framework/res_annotator.cpp
index 1cc899b..c3ffa8b 100644
--- a/src/framework/res_annotator.cpp
+++ b/src/framework/res_annotator.cpp
@@ -88,6 +88,8 @@ namespace uima {
 		msg.addParam(iv_pAnnotatorFile->getErrorMsg());
 		rErrInfo.setMessage(msg);
         ResourceManager::getInstance().getLogger().logError(rErrInfo);
+		// a resource that could not be initialized is deleted without deInit()
+		deInit();
 	  } else {
         setNewKey(filename.getAsCString());
 		std::string msg = "Loaded ";
-- 
2.43.0


From 2c598af43bd72976100cb5ef9ebdf48954550bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:00 +0000
Subject: [PATCH 130/143] fix: AnnotatorContext::defineCASPool() releases the
 pool it replaces

---
 src/framework/annotator_context.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/framework/annotator_context.cpp b/src/framework/annotator_context.cpp
index 2357d60..db9cbfe 100644
--- a/src/framework/annotator_context.cpp
+++ b/src/framework/annotator_context.cpp
@@ -149,7 +149,10 @@ namespace uima {
   }
 
   TyErrorId AnnotatorContext::defineCASPool(size_t numInstances) {
-    iv_pCasPool = new CASPool(getTaeSpecifier(),numInstances);
+    CASPool * pCasPool = new CASPool(getTaeSpecifier(),numInstances);
+    // a pool defined earlier is replaced
+    delete iv_pCasPool;
+    iv_pCasPool = pCasPool;
     if (iv_pCasPool == NULL) {
       return UIMA_ERR_USER_ANNOTATOR_OUT_OF_MEMORY;
     }
-- 
2.43.0


From 1f1dcb3e5ec38df1ed08b3e77815e00bd3abe021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:19 +0000
Subject: [PATCH 131/143] fix: release the arrays built for Java with delete[]

---
 src/jni/jni_utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jni/jni_utils.cpp b/src/jni/jni_utils.cpp
index 2939c42..d8a084b 100644
--- a/src/jni/jni_utils.cpp
+++ b/src/jni/jni_utils.cpp
@@ -193,7 +193,7 @@ jintArray JNIUtils::createIntArray(JNIEnv* jeEnv, vector<uima::internal::Seriali
 
     jeEnv->SetIntArrayRegion(jiArr, 0, uiLength, pJIntArray);
     ASSERT_NO_JNI_EXCEPTION(jeEnv);
-    delete pJIntArray;
+    delete[] pJIntArray;
   }
 
   return jiArr;
@@ -270,7 +270,7 @@ jbyteArray JNIUtils::createByteArray(JNIEnv* jeEnv, vector<char> const & crVec)
 
     jeEnv->SetByteArrayRegion(jiArr, 0, uiLength, pJByteArray);
     ASSERT_NO_JNI_EXCEPTION(jeEnv);
-    delete pJByteArray;
+    delete[] pJByteArray;
   }
 
   return jiArr;
@@ -306,7 +306,7 @@ jshortArray JNIUtils::createShortArray(JNIEnv* jeEnv, vector<short> const & crVe
 
     jeEnv->SetShortArrayRegion(jiArr, 0, uiLength, pJShortArray);
     ASSERT_NO_JNI_EXCEPTION(jeEnv);
-    delete pJShortArray;
+    delete[] pJShortArray;
   }
 
   return jiArr;
@@ -343,7 +343,7 @@ jlongArray JNIUtils::createLongArray(JNIEnv* jeEnv, vector<INT64> const & crVec)
 
     jeEnv->SetLongArrayRegion(jiArr, 0, uiLength, pJLongArray);
     ASSERT_NO_JNI_EXCEPTION(jeEnv);
-    delete pJLongArray;
+    delete[] pJLongArray;
   }
 
   return jiArr;
-- 
2.43.0


From abd6b260da2e06b66885d4b4f1c030021998430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:33 +0000
Subject: [PATCH 132/143] fix: free the analysis engine when its initialization
 fails with a foreign exception

---
 src/framework/engine.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/framework/engine.cpp b/src/framework/engine.cpp
index 6e8920d..2672c5d 100644
--- a/src/framework/engine.cpp
+++ b/src/framework/engine.cpp
@@ -235,6 +235,10 @@ namespace uima {
       return  pResult;
     } catch (Exception & rExc) {
       rErrorInfo = rExc.getErrorInfo();
+    } catch (...) {
+      // exceptions of another kind are left to the caller
+      delete pResult;
+      throw;
     }
     assert( rErrorInfo.getErrorId() != UIMA_ERR_NONE );
     if (pResult != NULL) {
-- 
2.43.0


From c70a4c6a333699201fa2ce471a4be55d38a34b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:18 +0000
Subject: [PATCH 133/143] fix: report calls of the JNI functions in the wrong
 order

---
 src/jni/jni.cpp       | 73 ++++++++++++++++++++++++-------------------
 src/jni/jni_utils.cpp |  4 +++
 src/jni/uima/jni.hpp  | 42 ++++++++++++++++++++++---
 3 files changed, 82 insertions(+), 37 deletions(-)

diff --git a/src/jni/jni.cpp b/src/jni/jni.cpp
index ac96190..c63be73 100644
--- a/src/jni/jni.cpp
+++ b/src/jni/jni.cpp
@@ -234,6 +234,21 @@ using namespace std;
       cout << "JNILogger::log(...) Exception in JavaLogging()" << endl;
     }
   }
+/********************************************************************
+ * throws the Java exception for an error code returned by the engine:
+ * the error the engine logged last if it is the one returned
+ */
+static void throwEngineError(JNIEnv* jeEnv, uima::AnalysisEngine & rEngine, uima::TyErrorId tyErrorId) {
+  uima::ErrorInfo const & lastError = rEngine.getAnnotatorContext().getLogger().getLastError();
+  if (lastError.getErrorId() == tyErrorId) {
+    JNIUtils::throwNewInternalException(jeEnv, lastError);
+  } else {
+    uima::ErrorInfo newError;
+    newError.setErrorId(tyErrorId);
+    JNIUtils::throwNewInternalException(jeEnv, newError);
+  }
+}
+
 /********************************************************************
  ***** JNI Functions
  ********************************************************************/
@@ -395,6 +410,7 @@ JNIEXPORT void JNICALL JAVA_PREFIX(destructorJNI) (JNIEnv* jeEnv, jobject joJTaf
     uima::JNIInstance* pInstance = JNIUtils::getCppInstance(jeEnv, joJTaf);
     assert( EXISTS(pInstance) );
 
+    JNIUtils::setCppInstance(jeEnv, joJTaf, 0);
     delete pInstance;
 
     UIMA_TPRINT("destructorJNI() finished");
@@ -433,6 +449,11 @@ JNIEXPORT void JNICALL JAVA_PREFIX(initializeJNI) (JNIEnv* jeEnv,
 
     uima::ErrorInfo errInfo;
 
+    if (pInstance->getEngine() != NULL) {
+      // initialized already
+      uima::JNIInstance::invalidCallingSequence();
+    }
+
     UIMA_TPRINT("creating engine");
     UIMA_TPRINT(uref);
     uima::ResourceManager::getInstance().enableSchemaValidation(false);
@@ -540,7 +561,7 @@ JNIEXPORT void JNICALL JAVA_PREFIX(typeSystemInitJNI) (JNIEnv* jeEnv,
     JNIUtils::createIntVector(jeEnv,comparatorIndex, rSerCAS.iv_vecComparatorStartTable);
     JNIUtils::createIntVector(jeEnv, indexingStrategy, rSerCAS.iv_vecIndexKindTable );
 
-    uima::AnalysisEngine * pEngine =  pInstance->getEngine();
+    uima::AnalysisEngine * pEngine =  &pInstance->requireEngine();
     uima::internal::EngineBase & engineBase = uima::internal::EngineBase::promoteEngine(*pEngine);
     uima::internal::CASDefinition & casDef = engineBase.getCASDefinition();
 
@@ -599,8 +620,7 @@ JNIEXPORT void JNICALL JAVA_PREFIX(fillCASJNI) (JNIEnv* jeEnv,
     uima::JNIInstance* pInstance = JNIUtils::getCppInstance(jeEnv, joJTaf);
     assert( EXISTS(pInstance) );
 
-    uima::CAS * cas = pInstance->getCAS();
-    assert( EXISTS(cas) );
+    uima::CAS * cas = &pInstance->requireCAS();
     uima::internal::SerializedCAS serCAS;
 
     vector<icu::UnicodeString> vecStringTable;
@@ -653,30 +673,20 @@ JNIEXPORT void JNICALL JAVA_PREFIX(destroyJNI) (JNIEnv* jeEnv, jobject joJTaf) {
     uima::JNIInstance* pInstance = JNIUtils::getCppInstance(jeEnv, joJTaf);
     assert( EXISTS(pInstance) );
 
-    uima::AnalysisEngine * pEngine =  pInstance->getEngine();
-
-    uima::TyErrorId tyErrorId = pEngine->destroy();
-    if (tyErrorId != UIMA_ERR_NONE) {
-      UIMA_TPRINT("Error during deInitializing engine (code= " << tyErrorId << ")" );
-      JNIUtils::throwNewInternalException(jeEnv, pEngine->getAnnotatorContext().getLogger().getLastError() );
-      return;
-    }
-
-    if (pEngine != NULL) {
-      delete pEngine;
-      pInstance->setEngine(NULL);
-    }
-
+    // the instance is gone afterwards, whatever the engine reports
+    unique_ptr<uima::JNIInstance> apInstance(pInstance);
     JNIUtils::setCppInstance(jeEnv, joJTaf, 0);
 
-    uima::CAS * pCAS = pInstance->getCAS();
-    if (pCAS != NULL) {
-      delete pCAS;
-      pInstance->setCAS(NULL);
+    uima::AnalysisEngine * pEngine =  pInstance->getEngine();
+    if (pEngine != NULL) {
+      uima::TyErrorId tyErrorId = pEngine->destroy();
+      if (tyErrorId != UIMA_ERR_NONE) {
+        UIMA_TPRINT("Error during deInitializing engine (code= " << tyErrorId << ")" );
+        throwEngineError(jeEnv, *pEngine, tyErrorId);
+        return;
+      }
     }
 
-    delete pInstance;
-
     UIMA_TPRINT("exiting destroy()");
   } catch (uima::Exception & rException) {
     UIMA_TPRINT("Exception: " << rException.asString() );
@@ -711,10 +721,9 @@ JNIEXPORT void JNICALL JAVA_PREFIX(processJNI) (JNIEnv* jeEnv,
     uima::JNIInstance* pInstance = JNIUtils::getCppInstance(jeEnv, joJTaf);
     assert( EXISTS(pInstance) );
 
-    uima::AnalysisEngine * pEngine = pInstance->getEngine();
-    assert( EXISTS(pEngine) );
+    uima::AnalysisEngine * pEngine = &pInstance->requireEngine();
 
-    uima::CAS & cas = *pInstance->getCAS();
+    uima::CAS & cas = pInstance->requireCAS();
     uima::ResultSpecification rs;
 
     vector<uima::internal::SerializedCAS::TyNum> rsTypes;
@@ -808,7 +817,7 @@ JNIEXPORT void JNICALL JAVA_PREFIX(resetJNI) (JNIEnv* jeEnv, jobject joJTaf) {
     assert( EXISTS(pInstance) );
     pInstance->getSerializedCAS().reset();
 
-    uima::TyErrorId tyErrorId = pInstance->getCAS()->reset();
+    uima::TyErrorId tyErrorId = pInstance->requireCAS().reset();
 
     //TODO: handle CAS multiplier - return new CASs to pool
     //     end the segementation.
@@ -882,7 +891,7 @@ JNIEXPORT void JNICALL JAVA_PREFIX(serializeSegmentJNI) (JNIEnv* jeEnv, jobject
 
     // definitions should not be called from here any more (see initializeJNI() )
     assert( jbSerializeData == JNI_TRUE );
-    uima::internal::CASImpl & casimpl = uima::internal::CASImpl::promoteCAS( *(pInstance->getSegment()) );
+    uima::internal::CASImpl & casimpl = uima::internal::CASImpl::promoteCAS( pInstance->requireSegment() );
     UIMA_TPRINT(casimpl.getDocumentText());
     serializer.serializeData( casimpl, pInstance->getSerializedSegment() );
 
@@ -1100,12 +1109,12 @@ JNIEXPORT void JNICALL JAVA_PREFIX(batchProcessCompleteJNI) (JNIEnv* jeEnv, jobj
     uima::JNIInstance* pInstance = JNIUtils::getCppInstance(jeEnv, joJTaf);
     assert( EXISTS(pInstance) );
 
-    uima::AnalysisEngine * pEngine =  pInstance->getEngine();
+    uima::AnalysisEngine * pEngine =  &pInstance->requireEngine();
 
     uima::TyErrorId tyErrorId = pEngine->batchProcessComplete();
     if (tyErrorId != UIMA_ERR_NONE) {
       UIMA_TPRINT("Error during deInitializing engine (code= " << tyErrorId << ")" );
-      JNIUtils::throwNewInternalException(jeEnv, pEngine->getAnnotatorContext().getLogger().getLastError() );
+      throwEngineError(jeEnv, *pEngine, tyErrorId);
       return;
     }
 
@@ -1133,12 +1142,12 @@ JNIEXPORT void JNICALL JAVA_PREFIX(collectionProcessCompleteJNI) (JNIEnv* jeEnv,
     uima::JNIInstance* pInstance = JNIUtils::getCppInstance(jeEnv, joJTaf);
     assert( EXISTS(pInstance) );
 
-    uima::AnalysisEngine * pEngine =  pInstance->getEngine();
+    uima::AnalysisEngine * pEngine =  &pInstance->requireEngine();
 
     uima::TyErrorId tyErrorId = pEngine->collectionProcessComplete();
     if (tyErrorId != UIMA_ERR_NONE) {
       UIMA_TPRINT("Error during deInitializing engine (code= " << tyErrorId << ")" );
-      JNIUtils::throwNewInternalException(jeEnv, pEngine->getAnnotatorContext().getLogger().getLastError() );
+      throwEngineError(jeEnv, *pEngine, tyErrorId);
       return;
     }
 
diff --git a/src/jni/jni_utils.cpp b/src/jni/jni_utils.cpp
index d8a084b..372155f 100644
--- a/src/jni/jni_utils.cpp
+++ b/src/jni/jni_utils.cpp
@@ -137,6 +137,10 @@ uima::JNIInstance* JNIUtils::getCppInstance(JNIEnv* jeEnv,
   jlong jlPointer = jeEnv->GetLongField(joJTaf, fid);
   ASSERT_NO_JNI_EXCEPTION(jeEnv);
   assertWithMsg( sizeof(void*) <= sizeof(jlong), "Port required");
+  if (jlPointer == 0) {
+    // not constructed, or destroyed already
+    uima::JNIInstance::invalidCallingSequence();
+  }
   return(uima::JNIInstance*) jlPointer;
 }
 
diff --git a/src/jni/uima/jni.hpp b/src/jni/uima/jni.hpp
index 5b58c83..57289ee 100644
--- a/src/jni/uima/jni.hpp
+++ b/src/jni/uima/jni.hpp
@@ -114,13 +114,46 @@ public:
       iv_hasNext(false){}
 
   ~JNIInstance() {
- 
+    delete iv_pCAS;
+    delete iv_pEngine;
   }
 
   uima::AnalysisEngine * getEngine() {
     return iv_pEngine;
   }
 
+  /** the engine, an exception unless the instance was initialized */
+  uima::AnalysisEngine & requireEngine() {
+    if (iv_pEngine == NULL) {
+      invalidCallingSequence();
+    }
+    return *iv_pEngine;
+  }
+
+  /** the CAS, an exception unless the instance was initialized */
+  uima::CAS & requireCAS() {
+    if (iv_pCAS == NULL) {
+      invalidCallingSequence();
+    }
+    return *iv_pCAS;
+  }
+
+  /** the current segment, an exception if there is none */
+  uima::CAS & requireSegment() {
+    if (iv_pSegment == NULL) {
+      invalidCallingSequence();
+    }
+    return *iv_pSegment;
+  }
+
+  static void invalidCallingSequence() {
+    UIMA_EXC_THROW_NEW(uima::ExcInvalidRequest,
+                       UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE,
+                       UIMA_MSG_ID_EXCON_CALLING_ANNOTATOR_FUNCTION,
+                       UIMA_MSG_ID_EXCON_CALLING_ANNOTATOR_FUNCTION,
+                       uima::ErrorInfo::recoverable);
+  }
+
   void setEngine(uima::AnalysisEngine * pEngine) {
     iv_pEngine = pEngine;
   }
@@ -144,13 +177,13 @@ public:
   }
 
   bool hasNext() {
-    iv_hasNext = iv_pEngine->hasNext();
+    iv_hasNext = requireEngine().hasNext();
     return iv_hasNext;
   }
 
   void next() {
     UIMA_TPRINT("Calling engine.next()");
-    iv_pSegment = &(iv_pEngine->next());
+    iv_pSegment = &(requireEngine().next());
     UIMA_TPRINT(iv_pSegment->getDocumentText());
     assert( EXISTS(iv_pSegment) );
   }
@@ -173,8 +206,7 @@ public:
   }
 
   uima::internal::CASImpl & getCASImpl() {
-    assert( EXISTS(iv_pCAS) );
-    return uima::internal::CASImpl::promoteCAS( *iv_pCAS );
+    return uima::internal::CASImpl::promoteCAS( requireCAS() );
   }
 
 };
-- 
2.43.0


From 9597a60a9f74674c454e61fde779d28a56907a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:39 +0000
Subject: [PATCH 134/143] fix: report errors of the type system initialization
 to Java

---
 src/jni/jni.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jni/jni.cpp b/src/jni/jni.cpp
index c63be73..526e00f 100644
--- a/src/jni/jni.cpp
+++ b/src/jni/jni.cpp
@@ -571,14 +571,20 @@ JNIEXPORT void JNICALL JAVA_PREFIX(typeSystemInitJNI) (JNIEnv* jeEnv,
     deSerializer.deserializeDefinitions( rSerCAS, casDef );
     UIMA_TPRINT("   done deserializing definitions");
 
-    engineBase.reinitTypeSystem();
-
+    // the CAS belongs to the old type system
     uima::CAS * pCAS = pInstance->getCAS();
     if (pCAS != NULL) {
       delete pCAS;
       pInstance->setCAS(NULL);
     }
 
+    uima::TyErrorId tyErrorId = engineBase.reinitTypeSystem();
+    if (tyErrorId != UIMA_ERR_NONE) {
+      UIMA_TPRINT("Error during type system initialization (code= " << tyErrorId << ")" );
+      throwEngineError(jeEnv, *pEngine, tyErrorId);
+      return;
+    }
+
     UIMA_TPRINT("recreate CAS");
     pCAS = pEngine->newCAS();
     assert( EXISTS(pCAS) );
-- 
2.43.0


From 21b2826516e811e006c5b785fc54b3e44898903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:49 +0000
Subject: [PATCH 135/143] fix: free the annotator when its destroy throws a
 foreign exception

---
 src/framework/internal_primitive_engine.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/framework/internal_primitive_engine.cpp b/src/framework/internal_primitive_engine.cpp
index e12b67f..0a7840a 100644
--- a/src/framework/internal_primitive_engine.cpp
+++ b/src/framework/internal_primitive_engine.cpp
@@ -238,6 +238,13 @@ namespace uima {
             // everything else must still be released
             getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
             utErrorId = rclException.getErrorInfo().getErrorId();
+          } catch (...) {
+            // exceptions of another kind are left to the caller
+            delete iv_pAnnotator;
+            iv_pAnnotator = NULL;
+            delete iv_pCapContainer;
+            iv_pCapContainer = NULL;
+            throw;
           }
         }
         delete iv_pAnnotator;
-- 
2.43.0


From 2d48e63ff8db698728eeb39d558978e1cc05e153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:23 +0000
Subject: [PATCH 136/143] fix: reset the CAS between runs over a single input
 file

---
 src/utils/runAECpp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utils/runAECpp.cpp b/src/utils/runAECpp.cpp
index a65c6ca..5110a81 100644
--- a/src/utils/runAECpp.cpp
+++ b/src/utils/runAECpp.cpp
@@ -610,6 +610,9 @@ void processInputFiles(AnalysisEngine * pEngine) {
       } else {
         //process the cas
         process(pEngine,cas, in, out);
+
+        //reset the cas
+        cas->reset();
       }
       /* call collectionProcessComplete */
       utErrorId = pEngine->collectionProcessComplete();
-- 
2.43.0


From eaef9835b1bee1629b5a9c82d8446cd2f560bd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:54 +0000
Subject: [PATCH 137/143] fix: report exceptions of other libraries in runAECpp

---
 src/utils/runAECpp.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/utils/runAECpp.cpp b/src/utils/runAECpp.cpp
index 5110a81..8e0f55e 100644
--- a/src/utils/runAECpp.cpp
+++ b/src/utils/runAECpp.cpp
@@ -113,7 +113,18 @@ void tell() {
 //-----------------------------------------------------------------
  static void* APR_THREAD_FUNC process(apr_thread_t *thd, void *data) {
    cout << endl << "ThreadId: " << apr_os_thread_current() << " runAECpp::processing... starting thread." << endl;
-   processInputFiles((AnalysisEngine *) data);
+   try {
+     processInputFiles((AnalysisEngine *) data);
+   } catch (Exception & e) {
+     cerr << "runAECpp: " << e << endl;
+     exit(1);
+   } catch (std::exception & e) {
+     cerr << "runAECpp: " << e.what() << endl;
+     exit(1);
+   } catch (...) {
+     cerr << "runAECpp: unknown exception" << endl;
+     exit(1);
+   }
    apr_thread_exit(thd, APR_SUCCESS);
    return NULL;
  }
@@ -310,6 +321,12 @@ int main(int argc, char * argv[]) {
     }
   } catch (Exception e) {
     cout << "runAECpp: " << e << endl;
+  } catch (std::exception & e) {
+    cerr << "runAECpp: " << e.what() << endl;
+    return 1;
+  } catch (...) {
+    cerr << "runAECpp: unknown exception" << endl;
+    return 1;
   }
   /* If we got this far everything went OK */
   cout << "runAECpp: processing finished sucessfully! " << endl;
@@ -473,6 +490,10 @@ void process (AnalysisEngine * pEngine, CAS * cas, std::string in, std::string o
     ErrorInfo errInfo = e.getErrorInfo();
     cerr << "runAECPP::Error " << errInfo.getErrorId() << " " << errInfo.getMessage() << endl;
     cerr << errInfo << endl;
+  } catch (std::exception & e) {
+    cerr << "runAECPP::Error processing " << in << ": " << e.what() << endl;
+  } catch (...) {
+    cerr << "runAECPP::Error processing " << in << ": unknown exception" << endl;
   }
 }
 
-- 
2.43.0


From f3f28c3363fd4fce05b19338b24733adac3a11cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:31 +0000
Subject: [PATCH 138/143] fix: never exit with status 0 on failure in runAECpp

---
 src/utils/runAECpp.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/utils/runAECpp.cpp b/src/utils/runAECpp.cpp
index 8e0f55e..5daf50b 100644
--- a/src/utils/runAECpp.cpp
+++ b/src/utils/runAECpp.cpp
@@ -59,6 +59,12 @@ static void tafCheckError(TyErrorId utErrorId,
                           const AnalysisEngine &  crEngine);
 static void tafCheckError(ErrorInfo const &);
 
+/* The exit status holds the low 8 bits of an error id only; a failure is never 0. */
+static int exitStatus(TyErrorId utErrorId) {
+  int status = (int) (utErrorId & 0xff);
+  return status != 0 ? status : 1;
+}
+
 void processInputFiles(AnalysisEngine * pEngine);
 
 // input file or directory
@@ -259,7 +265,7 @@ int main(int argc, char * argv[]) {
         << AnalysisEngine::getErrorIdAsCString(errorInfo.getErrorId()) << endl
         << "  UIMACPP Error info:" << endl
         << errorInfo << endl;
-        exit((int)errorInfo.getErrorId());
+        exit(exitStatus(errorInfo.getErrorId()));
       }
       processInputFiles(pEngine);
     } else {
@@ -286,7 +292,7 @@ int main(int argc, char * argv[]) {
           << AnalysisEngine::getErrorIdAsCString(errorInfo.getErrorId()) << endl
           << "  UIMACPP Error info:" << endl
           << errorInfo << endl;
-          exit((int)errorInfo.getErrorId());
+          exit(exitStatus(errorInfo.getErrorId()));
         }
         analysisEngines.push_back(pEngine);
       }
@@ -350,7 +356,7 @@ static void tafCheckError(TyErrorId utErrorId,
     const TCHAR * errStr = crEngine.getAnnotatorContext().getLogger().getLastErrorAsCStr();
     if (errStr != NULL)
       cerr << "  Last logged message : " << errStr << endl;
-    exit((int)utErrorId);
+    exit(exitStatus(utErrorId));
   }
 }
 
@@ -364,7 +370,7 @@ static void tafCheckError(ErrorInfo const & errInfo) {
     << AnalysisEngine::getErrorIdAsCString(errInfo.getErrorId()) << endl
     << "  UIMACPP Error info:" << endl
     << errInfo << endl;
-    exit((int)errInfo.getErrorId());
+    exit(exitStatus(errInfo.getErrorId()));
   }
 }
 
-- 
2.43.0


From 52910b881aefaa8ca9e733af87d81b34ed904b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:06 +0000
Subject: [PATCH 139/143] fix: exit with a failure status when runAECpp fails

---
 src/utils/runAECpp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/runAECpp.cpp b/src/utils/runAECpp.cpp
index 5daf50b..0797740 100644
--- a/src/utils/runAECpp.cpp
+++ b/src/utils/runAECpp.cpp
@@ -327,6 +327,7 @@ int main(int argc, char * argv[]) {
     }
   } catch (Exception e) {
     cout << "runAECpp: " << e << endl;
+    return exitStatus(e.getErrorInfo().getErrorId());
   } catch (std::exception & e) {
     cerr << "runAECpp: " << e.what() << endl;
     return 1;
-- 
2.43.0


From 98eccc637176a59cac3e4956f84964167aeba6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:48 +0000
Subject: [PATCH 140/143] fix: choose the view for every input document anew in
 runAECpp

---
 src/utils/runAECpp.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/utils/runAECpp.cpp b/src/utils/runAECpp.cpp
index 0797740..b1b8f80 100644
--- a/src/utils/runAECpp.cpp
+++ b/src/utils/runAECpp.cpp
@@ -418,18 +418,20 @@ void process (AnalysisEngine * pEngine, CAS * cas, std::string in, std::string o
     }
 
     // Is the input a tcas?
+    bool processView = useSofa;
+    const char * viewName = sofaName;
     if (!useSofa && cas->isBackwardCompatibleCas()) {
-      useSofa = true;
-      sofaName = CAS::NAME_DEFAULT_TEXT_SOFA;
+      processView = true;
+      viewName = CAS::NAME_DEFAULT_TEXT_SOFA;
     }
 
     // Is a specific Sofa view specified?
-    if (useSofa) {
+    if (processView) {
       /* process the specified TCAS */
-      SofaFS mySofa = cas->getSofa(pEngine->getAnnotatorContext().mapToSofaID(sofaName));
+      SofaFS mySofa = cas->getSofa(pEngine->getAnnotatorContext().mapToSofaID(viewName));
       if (!mySofa.isValid()) {
         cerr << "runAECpp:" << endl
-        << "  Specified Sofa named " << sofaName
+        << "  Specified Sofa named " << viewName
         << " not found in the input file" << endl;
         exit(99);
       }
-- 
2.43.0


From 11bd21578624c9f792041e2da910ed61d37504c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:22 +0000
Subject: [PATCH 141/143] fix: do not run static destructors under the other
 threads of runAECpp

---
 src/utils/runAECpp.cpp | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/utils/runAECpp.cpp b/src/utils/runAECpp.cpp
index b1b8f80..55a75ea 100644
--- a/src/utils/runAECpp.cpp
+++ b/src/utils/runAECpp.cpp
@@ -28,6 +28,7 @@
 /* ----------------------------------------------------------------------- */
 
 #include <stdio.h>
+#include <cstdlib>
 #include <errno.h>
 #include <sys/stat.h>
 
@@ -65,6 +66,10 @@ static int exitStatus(TyErrorId utErrorId) {
   return status != 0 ? status : 1;
 }
 
+/* Ends the process. Other annotator threads may be running: they would lose the
+   static objects which exit() destroys. */
+static void endProcess(int status);
+
 void processInputFiles(AnalysisEngine * pEngine);
 
 // input file or directory
@@ -123,13 +128,13 @@ void tell() {
      processInputFiles((AnalysisEngine *) data);
    } catch (Exception & e) {
      cerr << "runAECpp: " << e << endl;
-     exit(1);
+     endProcess(1);
    } catch (std::exception & e) {
      cerr << "runAECpp: " << e.what() << endl;
-     exit(1);
+     endProcess(1);
    } catch (...) {
      cerr << "runAECpp: unknown exception" << endl;
-     exit(1);
+     endProcess(1);
    }
    apr_thread_exit(thd, APR_SUCCESS);
    return NULL;
@@ -343,6 +348,15 @@ int main(int argc, char * argv[]) {
 
 
 
+static void endProcess(int status) {
+  cout.flush();
+  cerr.flush();
+  if (numinstances > 1) {
+    std::_Exit(status);
+  }
+  exit(status);
+}
+
 /* Little helper routine to check and report errors.
    This routine just does a hard program exit for any failure!
 */
@@ -395,7 +409,7 @@ void process (AnalysisEngine * pEngine, CAS * cas, std::string in, std::string o
       int filesize;
       if (pFile == NULL) {
         cerr << "RunAECpp: Error reading file " << in << endl;
-        exit(-1);
+        endProcess(-1);
       }
 
       /* allocate buffer for file contents */
@@ -405,7 +419,7 @@ void process (AnalysisEngine * pEngine, CAS * cas, std::string in, std::string o
       char * pBuffer = new char[filesize+1];
       if (pBuffer == NULL) {
         cerr << "RunAECpp: Error allocating buffer to hold contents of file  " << in << endl;
-        exit(-1);
+        endProcess(-1);
       }
 
       /* read the file */
@@ -433,7 +447,7 @@ void process (AnalysisEngine * pEngine, CAS * cas, std::string in, std::string o
         cerr << "runAECpp:" << endl
         << "  Specified Sofa named " << viewName
         << " not found in the input file" << endl;
-        exit(99);
+        endProcess(99);
       }
 
       CASIterator casIter = pEngine->processAndOutputNewCASes(*cas->getView(mySofa));
@@ -485,7 +499,7 @@ void process (AnalysisEngine * pEngine, CAS * cas, std::string in, std::string o
       file.open (outfn.c_str(), ios::out | ios::binary);
       if ( !file ) {
         cerr << "runAECpp: Error opening output xmi: " << outfn.c_str() << endl;
-        exit(99);
+        endProcess(99);
       }
 
       //serialize the input cas
@@ -523,7 +537,7 @@ void writeXmi (CAS & outCas, int num,  std::string in, std::string outfn)  {
   file.open (ofn.c_str(), ios::out | ios::binary);
   if ( !file ) {
     cerr << "Error opening output xmi: " << ofn.c_str() << endl;
-    exit(99);
+    endProcess(99);
   }
 
   //serialize the cas
@@ -553,7 +567,7 @@ void processInputFiles(AnalysisEngine * pEngine) {
     CAS* cas = pEngine->newCAS();
     if (cas == NULL) {
       cerr << "runAECpp: pEngine->newCAS() failed." << endl;
-      exit (1);
+      endProcess(1);
     }
 
     /* initialize random seed: */
-- 
2.43.0


From 70c846e7d0e550eb4ab3bf5ee16c2392aeafeb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:23 +0000
Subject: [PATCH 142/143] fix: index the feature structures of a blob after all
 heaps are read

---
 src/cas/internal_casdeserializer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index 99beb80..f0b5821 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -902,13 +902,11 @@ namespace uima {
       }
       intPtr += 1 + uiRefHeapLength;
 
-      // create FS indexes
+      // indexed FSs
       size_t uiIndexedFSLength = intPtr[0];
       if (uiIndexedFSLength > 0) {
-        uima::CAS * baseCAS = rCAS.getBaseCas();
         iv_vecIndexedFSs.resize(uiIndexedFSLength);
         memcpy(&iv_vecIndexedFSs[0], intPtr+1, 4*uiIndexedFSLength);
-        deserializeIndexedFSs(iv_vecIndexedFSs, *baseCAS);
       }
       intPtr += 1 + uiIndexedFSLength;
 
@@ -943,6 +941,10 @@ namespace uima {
         memcpy(ty64BitHeap.getHeapStart(), intPtr+1, 8*ui64BitHeapLength);
       }
 
+      // create FS indexes, their keys may be in any of the heaps
+      if (uiIndexedFSLength > 0) {
+        deserializeIndexedFSs(iv_vecIndexedFSs, *rCAS.getBaseCas());
+      }
 
 
     }
-- 
2.43.0


From c3e7f8fc3e7c6ac4c9591cde285c6b80f3239053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:03 +0000
Subject: [PATCH 143/143] fix: hand out the head of a list in the view of the
 annotation

---
 src/cas/uima/internal_fsvalue_accessors.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cas/uima/internal_fsvalue_accessors.hpp b/src/cas/uima/internal_fsvalue_accessors.hpp
index 41fe71a..4920566 100644
--- a/src/cas/uima/internal_fsvalue_accessors.hpp
+++ b/src/cas/uima/internal_fsvalue_accessors.hpp
@@ -60,9 +60,12 @@ namespace uima {
       rResult = cas->getHeap()->getFSValue( tyFS, tyFeat );
     }
 
+    inline void fromHeapCellTempl( lowlevel::TyHeapCell tyCell, uima::CAS & cas, FeatureStructure & rResult);
+
     inline void getFSValueTempl(uima::CAS * cas, lowlevel::TyFS tyFS, lowlevel::TyFSFeature tyFeat, FeatureStructure & rResult) {
       lowlevel::TyFS tyFSValue = cas->getHeap()->getFSValue( tyFS, tyFeat );
-      rResult = internal::FSPromoter::promoteFS(tyFSValue, *cas);
+      // if the value is an annotation, might create FS from different CAS
+      fromHeapCellTempl(tyFSValue, *cas, rResult);
     }
 
     inline void getFSValueTempl(uima::CAS * cas, lowlevel::TyFS tyFS, lowlevel::TyFSFeature tyFeat, float & rResult) {
-- 
2.43.0

