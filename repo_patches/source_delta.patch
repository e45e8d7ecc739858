From 29b23c138c3f94ee07375b0413098978cebc74c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 001/110] fix: read array sizes of 128 and more correctly when
 deserializing

The size bytes were sign-extended, so any array with a size byte above
127 was deserialized with a wrong size.
---
 src/value/ArrayImpl.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/value/ArrayImpl.cc b/src/value/ArrayImpl.cc
index f3bf677..fce1a14 100644
--- a/src/value/ArrayImpl.cc
+++ b/src/value/ArrayImpl.cc
@@ -927,9 +927,9 @@ namespace PLEXIL
       return nullptr; // not an appropriate array
 
     // Get 3 bytes of size
-    size_t siz = (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++;
+    size_t siz = (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++;
     
     this->resize(siz);
     
@@ -948,9 +948,9 @@ namespace PLEXIL
       return nullptr; // not a Boolean array
 
     // Get 3 bytes of size
-    size_t siz = (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++;
+    size_t siz = (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++;
     this->resize(siz);
     
     buf = deserializeBoolVector(this->m_known, buf);
@@ -966,9 +966,9 @@ namespace PLEXIL
       return nullptr; // not an appropriate array
 
     // Get 3 bytes of size
-    size_t siz = (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++;
+    size_t siz = (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++;
     
     this->resize(siz);
     
-- 
2.43.0


From 009e0422f2f4b4cb4473a32695e96cbeb5c18727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 002/110] fix: ignore stale contents of unknown elements when
 comparing arrays

Arrays equal element by element compared unequal when an element which
is unknown in both had previously held different values, while neither
was less than the other.
---
 src/value/ArrayImpl.cc | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/value/ArrayImpl.cc b/src/value/ArrayImpl.cc
index fce1a14..c9016c1 100644
--- a/src/value/ArrayImpl.cc
+++ b/src/value/ArrayImpl.cc
@@ -283,6 +283,23 @@ namespace PLEXIL
     return true;
   }
 
+  // Internal function
+  // Elements which are unknown in both arrays are equal, whatever
+  // their stale contents.
+  template <typename T>
+  static bool arraysEqual(std::vector<bool> const &aKnown,
+                          std::vector<T> const &aVec,
+                          std::vector<bool> const &bKnown,
+                          std::vector<T> const &bVec)
+  {
+    if (aKnown != bKnown)
+      return false;
+    for (size_t i = 0; i < aKnown.size(); ++i)
+      if (aKnown[i] && !(aVec[i] == bVec[i]))
+        return false;
+    return true;
+  }
+
   // Generic equality
   template <typename T>
   bool ArrayImpl<T>::operator==(Array const &other) const
@@ -307,16 +324,14 @@ namespace PLEXIL
   template <typename T>
   bool ArrayImpl<T>::operator==(ArrayImpl<T> const &other) const
   {
-    if (!(this->getKnownVector() == other.getKnownVector()))
-      return false;
-    return m_contents == other.m_contents;
+    return arraysEqual(this->getKnownVector(), m_contents,
+                       other.getKnownVector(), other.m_contents);
   }
 
   bool ArrayImpl<String>::operator==(ArrayImpl<String> const &other) const
   {
-    if (!(this->getKnownVector() == other.getKnownVector()))
-      return false;
-    return m_contents == other.m_contents;
+    return arraysEqual(this->getKnownVector(), m_contents,
+                       other.getKnownVector(), other.m_contents);
   }
 
   template <typename T>
@@ -420,12 +435,11 @@ namespace PLEXIL
   template <typename T>
   bool operator==(ArrayImpl<T> const &arya, ArrayImpl<T> const &aryb)
   {
-    if (!(arya.getKnownVector() == aryb.getKnownVector()))
-      return false;
     std::vector<T> const *avec, *bvec;
     arya.getContentsVector(avec);
     aryb.getContentsVector(bvec);
-    return *avec == *bvec;
+    return arraysEqual(arya.getKnownVector(), *avec,
+                       aryb.getKnownVector(), *bvec);
   }
 
   // Generic
-- 
2.43.0


From 07073763618fbcbd48c72c32513d245987ccfe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 003/110] fix: order unknown Integer and Real values
 consistently with equality

Value::equals() treats an unknown Integer and an unknown Real as equal,
but lessThan() put one before the other, so a std::map keyed by State
could miss an equal key.
---
 src/value/Value.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value/Value.cc b/src/value/Value.cc
index 9ea0967..855627d 100644
--- a/src/value/Value.cc
+++ b/src/value/Value.cc
@@ -1082,7 +1082,7 @@ namespace PLEXIL
       else if (REAL_TYPE == other.m_type) {
         if (m_known)
           return ((Real) integerValue) < other.realValue;
-        return true; // real unknown > int unknown
+        return false; // numeric unknowns are equal
       }
       return m_type < other.m_type;
 
@@ -1095,7 +1095,7 @@ namespace PLEXIL
       else if (INTEGER_TYPE == other.m_type) {
         if (m_known)
           return realValue < (Real) other.integerValue;
-        return false; // real unknown > int unknown
+        return false; // numeric unknowns are equal
       }
       return m_type < other.m_type;
 
-- 
2.43.0


From c860e12c14d2785d7b10fb96b21e874544b48f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 004/110] fix: OR of three or more operands is unknown if any
 is unknown and none true

---
 src/expr/BooleanOperators.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/expr/BooleanOperators.cc b/src/expr/BooleanOperators.cc
index d7d2f73..3e0a2ec 100644
--- a/src/expr/BooleanOperators.cc
+++ b/src/expr/BooleanOperators.cc
@@ -100,7 +100,7 @@ namespace PLEXIL
   bool BooleanOr::operator()(Boolean &result, Function const &args) const
   {
     size_t const n = args.size();
-    bool anyKnown = false;
+    bool allKnown = true;
     for (size_t i = 0; i < n; ++i) {
       bool temp;
       if (args[i]->getValue(temp)) {
@@ -109,12 +109,13 @@ namespace PLEXIL
           result = true;
           return true;
         }
-        anyKnown = true; // but no true value yet
       }
+      else
+        allKnown = false; // this arg could be true
     }
-    if (anyKnown)
+    if (allKnown)
       result = false; // or we would have returned above
-    return anyKnown;
+    return allKnown;
   }
 
   //
-- 
2.43.0


From 76f62b9edc6591ffa152a4660973162643871494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 005/110] fix: XOR of three or more operands is computed when
 all are known, not when one is unknown

---
 src/expr/BooleanOperators.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/BooleanOperators.cc b/src/expr/BooleanOperators.cc
index 3e0a2ec..eb7e104 100644
--- a/src/expr/BooleanOperators.cc
+++ b/src/expr/BooleanOperators.cc
@@ -224,7 +224,7 @@ namespace PLEXIL
     for (size_t i = 0; i < n; ++i) {
       bool temp2;
       // Return unknown if any arg is unknown
-      if (args[i]->getValue(temp2))
+      if (!args[i]->getValue(temp2))
         return false;
       temp1 = (temp1 != temp2);
     }
-- 
2.43.0


From aadb2fb0be82e0c7576910a63c8f4e4c410143fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 006/110] fix: accept array variable references as operands of
 ArraySize, AllKnown etc.

---
 src/xml-parser/Operations.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/xml-parser/Operations.cc b/src/xml-parser/Operations.cc
index 3c2d189..00bf7cb 100644
--- a/src/xml-parser/Operations.cc
+++ b/src/xml-parser/Operations.cc
@@ -748,7 +748,9 @@ namespace PLEXIL
 
     virtual bool checkArgTypes(std::vector<ValueType> const &typeVec) const
     {
-      return isArrayType(typeVec.at(0));
+      // Type of an array variable reference isn't known until it's resolved.
+      ValueType const typ = typeVec.at(0);
+      return isArrayType(typ) || typ == UNKNOWN_TYPE;
     }
 
     virtual ValueType getValueType(std::vector<ValueType> const & /* typeVec */,
@@ -757,10 +759,10 @@ namespace PLEXIL
       return m_returnType;
     }
 
-    virtual Operator const *getOperator(std::vector<ValueType> const & /* typeVec */,
+    virtual Operator const *getOperator(std::vector<ValueType> const &typeVec,
                                         ValueType /* desiredType */) const
     {
-      return m_operator;
+      return checkArgTypes(typeVec) ? m_operator : nullptr;
     }
 
   private:
-- 
2.43.0


From 724cf54b23d6c96e37191a556d61b23a8ccb0a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 007/110] fix: free the right operands and name the actual
 types when an operator can't be parsed

---
 src/xml-parser/OperationFactory.cc | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/xml-parser/OperationFactory.cc b/src/xml-parser/OperationFactory.cc
index 681a6c5..e9d4fd4 100644
--- a/src/xml-parser/OperationFactory.cc
+++ b/src/xml-parser/OperationFactory.cc
@@ -99,18 +99,25 @@ namespace PLEXIL
       }
       catch (ParserException & /* e */) {
         for (size_t j = 0; j < i; j++)
-          if (argCreated[i])
-            delete args[i];
+          if (argCreated[j])
+            delete args[j];
         throw;
       }
 
       Operator const *oper = m_operation->getOperator(argTypes, desiredType);
-      checkParserExceptionWithLocation(oper,
-                                       expr,
-                                       "OperationFactory::allocate: no operator found for "
-                                       << m_operation->getName()
-                                       << "\n Arg types " << valueTypeName(argTypes[0])
-                                       << ", " << valueTypeName(argTypes[1]));
+      if (!oper) {
+        std::string typeNames;
+        for (size_t j = 0; j < n; ++j) {
+          if (argCreated[j])
+            delete args[j];
+          typeNames += j ? ", " : "";
+          typeNames += valueTypeName(argTypes[j]);
+        }
+        reportParserExceptionWithLocation(expr,
+                                          "OperationFactory::allocate: no operator found for "
+                                          << m_operation->getName()
+                                          << "\n Arg types " << typeNames);
+      }
       Function *result = m_operation->constructFunction(oper, n);
 
       for (size_t j = 0 ; j < n; ++j) {
-- 
2.43.0


From 443bdd4b1ecd0cff78494d414ac301a0f0626bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 008/110] fix: initialize the value and flags of user variables

---
 src/expr/UserVariable.cc | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/expr/UserVariable.cc b/src/expr/UserVariable.cc
index 144f015..b8cf7c6 100644
--- a/src/expr/UserVariable.cc
+++ b/src/expr/UserVariable.cc
@@ -46,20 +46,26 @@ namespace PLEXIL
   UserVariable<T>::UserVariable()
     : Variable(),
       Notifier(),
+      m_value(),
+      m_savedValue(),
       m_initializer(nullptr),
       m_name(nullptr),
       m_known(false),
-      m_savedKnown(false)
+      m_savedKnown(false),
+      m_initializerIsGarbage(false)
   {
   }
 
   UserVariable<String>::UserVariable()
     : Variable(),
       Notifier(),
+      m_value(),
+      m_savedValue(),
       m_initializer(nullptr),
       m_name(nullptr),
       m_known(false),
-      m_savedKnown(false)
+      m_savedKnown(false),
+      m_initializerIsGarbage(false)
   {
   }
 
@@ -67,16 +73,21 @@ namespace PLEXIL
   UserVariable<T>::UserVariable(T const &initVal)
     : Variable(),
       Notifier(),
+      m_value(),
+      m_savedValue(),
       m_initializer(new Constant<T>(initVal)),
       m_name(nullptr),
       m_known(false),
-      m_savedKnown(false)
+      m_savedKnown(false),
+      m_initializerIsGarbage(true)
   {
   }
 
   UserVariable<String>::UserVariable(String const &initVal)
     : Variable(),
       Notifier(),
+      m_value(),
+      m_savedValue(),
       m_initializer(new Constant<String>(initVal)),
       m_name(nullptr),
       m_known(false),
@@ -90,6 +101,8 @@ namespace PLEXIL
   UserVariable<Boolean>::UserVariable(const Boolean &initVal)
     : Variable(),
       Notifier(),
+      m_value(),
+      m_savedValue(),
       m_initializer(initVal ? TRUE_EXP() : FALSE_EXP()),
       m_name(nullptr),
       m_known(false),
@@ -102,6 +115,8 @@ namespace PLEXIL
   UserVariable<T>::UserVariable(char const *name)
     : Variable(),
       Notifier(),
+      m_value(),
+      m_savedValue(),
       m_initializer(nullptr),
       m_name(strdup(name)),
       m_known(false),
@@ -113,6 +128,8 @@ namespace PLEXIL
   UserVariable<String>::UserVariable(char const *name)
     : Variable(),
       Notifier(),
+      m_value(),
+      m_savedValue(),
       m_initializer(nullptr),
       m_name(strdup(name)),
       m_known(false),
-- 
2.43.0


From 2f546d21353909a85d4df901fd8203d2f7fe67ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 009/110] fix: saved value of a variable which was unknown is
 unknown

---
 src/expr/ArrayVariable.cc | 2 +-
 src/expr/UserVariable.cc  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/expr/ArrayVariable.cc b/src/expr/ArrayVariable.cc
index 708b10d..66a9417 100644
--- a/src/expr/ArrayVariable.cc
+++ b/src/expr/ArrayVariable.cc
@@ -204,7 +204,7 @@ namespace PLEXIL
 
   Value ArrayVariable::getSavedValue() const
   {
-    if (m_savedValue)
+    if (m_savedKnown)
       return Value(*m_savedValue);
     return Value();
   }
diff --git a/src/expr/UserVariable.cc b/src/expr/UserVariable.cc
index b8cf7c6..6d7eb90 100644
--- a/src/expr/UserVariable.cc
+++ b/src/expr/UserVariable.cc
@@ -410,12 +410,12 @@ namespace PLEXIL
   template <typename T>
   Value UserVariable<T>::getSavedValue() const
   {
-   return Value(m_savedValue);
+   return m_savedKnown ? Value(m_savedValue) : Value();
   }
 
   Value UserVariable<String>::getSavedValue() const
   {
-   return Value(m_savedValue);
+   return m_savedKnown ? Value(m_savedValue) : Value();
   }
 
   template <typename T>
-- 
2.43.0


From 27b5cde473bb974ee89fb108cf79b881147355c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 010/110] fix: restore an array's saved contents even if it's
 now unknown

---
 src/expr/ArrayVariable.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/expr/ArrayVariable.cc b/src/expr/ArrayVariable.cc
index 66a9417..6ac8d5d 100644
--- a/src/expr/ArrayVariable.cc
+++ b/src/expr/ArrayVariable.cc
@@ -696,7 +696,7 @@ namespace PLEXIL
   void ArrayVariableImpl<T>::restoreSavedValue()
   {
     bool changed = m_known != m_savedKnown;
-    if (m_known && m_savedKnown
+    if (m_savedKnown
         && !equals(m_savedValue.get())) {
       changed = true;
       ArrayImpl<T> const *saved =
@@ -712,7 +712,7 @@ namespace PLEXIL
   void ArrayVariableImpl<Integer>::restoreSavedValue()
   {
     bool changed = m_known != m_savedKnown;
-    if (m_known && m_savedKnown
+    if (m_savedKnown
         && !equals(m_savedValue.get())) {
       changed = true;
       ArrayImpl<Integer> const *saved =
@@ -728,7 +728,7 @@ namespace PLEXIL
   void ArrayVariableImpl<String>::restoreSavedValue()
   {
     bool changed = m_known != m_savedKnown;
-    if (m_known && m_savedKnown
+    if (m_savedKnown
         && !equals(m_savedValue.get())) {
       changed = true;
       ArrayImpl<String> const *saved =
-- 
2.43.0


From c2fdafdbac275591d42eaa33f069690b087b88e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 011/110] fix: publish the change when an array element is set
 to unknown

---
 src/expr/ArrayVariable.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expr/ArrayVariable.cc b/src/expr/ArrayVariable.cc
index 6ac8d5d..013c1e6 100644
--- a/src/expr/ArrayVariable.cc
+++ b/src/expr/ArrayVariable.cc
@@ -285,8 +285,10 @@ namespace PLEXIL
 
   void ArrayVariable::setElementUnknown(size_t idx)
   {
-    if (m_known)
+    if (m_known && m_value->elementKnown(idx)) {
       m_value->setElementUnknown(idx);
+      publishChange();
+    }
     // else fail silently
   }
 
-- 
2.43.0


From ca6c34c5f96014db9ebacf346778371d67537144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 012/110] fix: assign and restore the array element selected
 when the Assignment started

---
 src/expr/ArrayReference.cc | 29 ++++++++++++++++++++++-------
 src/expr/ArrayReference.hh | 13 ++++++++++++-
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/expr/ArrayReference.cc b/src/expr/ArrayReference.cc
index 89087f8..9cd7138 100644
--- a/src/expr/ArrayReference.cc
+++ b/src/expr/ArrayReference.cc
@@ -228,7 +228,9 @@ namespace PLEXIL
     : Assignable(),
       ArrayReference(ary, idx, aryIsGarbage, idxIsGarbage),
       m_mutableArray(dynamic_cast<ArrayVariable *>(ary->getBaseExpression())),
-      m_saved(false)
+      m_savedIndex(0),
+      m_saved(false),
+      m_pending(false)
   {
   }
 
@@ -247,10 +249,22 @@ namespace PLEXIL
     return true;
   }
 
+  bool MutableArrayReference::destinationIndex(size_t &idx)
+  {
+    // The assignment pending since the last saveCurrentValue(), if any,
+    // is to the element saved, whatever has become of the index since.
+    if (m_pending) {
+      m_pending = false;
+      idx = m_savedIndex;
+      return m_saved && m_mutableArray->isKnown();
+    }
+    return mutableSelfCheck(idx);
+  }
+
   void MutableArrayReference::setValue(Value const &value)
   {
     size_t idx;
-    if (!mutableSelfCheck(idx))
+    if (!destinationIndex(idx))
       return;
     m_mutableArray->setElement(idx, value);
   }
@@ -258,7 +272,7 @@ namespace PLEXIL
   void MutableArrayReference::setUnknown()
   {
     size_t idx;
-    if (!mutableSelfCheck(idx))
+    if (!destinationIndex(idx))
       return;
     m_mutableArray->setElementUnknown(idx);
   }
@@ -266,22 +280,23 @@ namespace PLEXIL
   void MutableArrayReference::saveCurrentValue()
   {
     size_t idx;
+    m_pending = true;
     if (!mutableSelfCheck(idx)) {
       // unknown or invalid
       m_saved = false;
       return;
     }
+    m_savedIndex = idx;
     m_savedValue = m_mutableArray->getElementValue(idx);
     m_saved = true;
   }
 
   void MutableArrayReference::restoreSavedValue()
   {
-    size_t idx;
-    if (!mutableSelfCheck(idx) || !m_saved) 
+    if (!m_saved || !m_mutableArray->isKnown())
       return;
-    if (m_savedValue != m_mutableArray->getElementValue(idx)) {
-      m_mutableArray->setElement(idx, m_savedValue);
+    if (m_savedValue != m_mutableArray->getElementValue(m_savedIndex)) {
+      m_mutableArray->setElement(m_savedIndex, m_savedValue);
     }
     m_saved = false;
   }
diff --git a/src/expr/ArrayReference.hh b/src/expr/ArrayReference.hh
index 309893e..834ebc4 100644
--- a/src/expr/ArrayReference.hh
+++ b/src/expr/ArrayReference.hh
@@ -244,14 +244,25 @@ namespace PLEXIL {
     //!       array's actual size.
     bool mutableSelfCheck(size_t &idx);
 
+    //! \brief Determine which element the next setValue() or setUnknown() call affects.
+    //! \param idx The array index.
+    //! \return true if there is such an element, false if not.
+    bool destinationIndex(size_t &idx);
+
     //! \brief Pointer to the array expression as an ArrayVariable instance.
     ArrayVariable *m_mutableArray;
 
     //! \brief Value saved by saveCurrentValue().
     Value m_savedValue;
 
-    //! \brief True if saveCurrentValue() has been called, false otherwise.
+    //! \brief Index of the element saved by saveCurrentValue().
+    size_t m_savedIndex;
+
+    //! \brief True if saveCurrentValue() saved an element, false otherwise.
     bool m_saved;
+
+    //! \brief True if saveCurrentValue() was called since the last assignment.
+    bool m_pending;
   };
 
 } // namespace PLEXIL
-- 
2.43.0


From 8256c8aa8b1e9498079407df6bda335612158862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:45 +0000
Subject: [PATCH 013/110] fix: allow ArraySize, ArrayMaxSize and STRLEN where a
 Real is wanted

---
 src/expr/ArrayOperators.cc  | 4 ++--
 src/expr/ArrayOperators.hh  | 4 ++--
 src/expr/StringOperators.cc | 2 +-
 src/expr/StringOperators.hh | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/expr/ArrayOperators.cc b/src/expr/ArrayOperators.cc
index c1b34c7..0a1a545 100644
--- a/src/expr/ArrayOperators.cc
+++ b/src/expr/ArrayOperators.cc
@@ -51,7 +51,7 @@ namespace PLEXIL
     return isArrayType(typ) || typ == UNKNOWN_TYPE;
   }
 
-  bool ArraySize::operator()(Integer &result, Expression const *arg) const
+  bool ArraySize::calc(Integer &result, Expression const *arg) const
   {
     Array const *ary;
     if (!arg->getValuePointer(ary))
@@ -80,7 +80,7 @@ namespace PLEXIL
     return isArrayType(typ) || typ == UNKNOWN_TYPE;
   }
 
-  bool ArrayMaxSize::operator()(Integer &result, Expression const *arg) const
+  bool ArrayMaxSize::calc(Integer &result, Expression const *arg) const
   {
     // *** TODO: Reimplement as Expression metadata query, not expression value query ***
     Array const *ary;
diff --git a/src/expr/ArrayOperators.hh b/src/expr/ArrayOperators.hh
index 41a05c2..8b8c1ce 100644
--- a/src/expr/ArrayOperators.hh
+++ b/src/expr/ArrayOperators.hh
@@ -44,7 +44,7 @@ namespace PLEXIL
 
     bool checkArgTypes(std::vector<ValueType> const &typeVec) const;
 
-    bool operator()(Integer &result, Expression const *arg) const;
+    bool calc(Integer &result, Expression const *arg) const;
 
     DECLARE_OPERATOR_STATIC_INSTANCE(ArraySize);
 
@@ -69,7 +69,7 @@ namespace PLEXIL
 
     bool checkArgTypes(std::vector<ValueType> const &typeVec) const;
 
-    bool operator()(Integer &result, Expression const *arg) const;
+    bool calc(Integer &result, Expression const *arg) const;
 
     DECLARE_OPERATOR_STATIC_INSTANCE(ArrayMaxSize);
 
diff --git a/src/expr/StringOperators.cc b/src/expr/StringOperators.cc
index 7d04bce..22b22ed 100644
--- a/src/expr/StringOperators.cc
+++ b/src/expr/StringOperators.cc
@@ -111,7 +111,7 @@ namespace PLEXIL
     return typeVec.at(0) == STRING_TYPE || typeVec.at(0) == UNKNOWN_TYPE;
   }
 
-  bool StringLength::operator()(Integer &result, Expression const *arg) const
+  bool StringLength::calc(Integer &result, Expression const *arg) const
   {
     String const *str;
     if (!arg->getValuePointer(str))
diff --git a/src/expr/StringOperators.hh b/src/expr/StringOperators.hh
index 85896ba..9370248 100644
--- a/src/expr/StringOperators.hh
+++ b/src/expr/StringOperators.hh
@@ -116,7 +116,7 @@ namespace PLEXIL
     //! \param arg Const pointer to the expression.
     //! \return true if the result is known, false if not.
     //! \note Delegates to the corresponding calc() method.
-    bool operator()(Integer &result, Expression const *arg) const override;
+    bool calc(Integer &result, Expression const *arg) const override;
 
     //! \brief Singleton accessor.
     DECLARE_OPERATOR_STATIC_INSTANCE(StringLength);
-- 
2.43.0


From e7d17fe581cc8b82033046a2d9ecb5f9595b5d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 014/110] fix: clean up all the conditions in a plan before
 deleting any of its nodes

---
 src/exec/ListNode.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/exec/ListNode.cc b/src/exec/ListNode.cc
index 18629d6..67f792f 100644
--- a/src/exec/ListNode.cc
+++ b/src/exec/ListNode.cc
@@ -361,6 +361,10 @@ namespace PLEXIL
 
     debugMsg("ListNode:cleanUpNodeBody", " for " << m_nodeId);
 
+    // Clean up all the children before deleting any of them
+    for (NodeImplPtr &child : m_children)
+      child->cleanUpNodeBody();
+
     // Delete children
     for (NodeImplPtr &child : m_children)
       delete (Node*) child.release();
@@ -373,8 +377,6 @@ namespace PLEXIL
     debugMsg("ListNode:cleanUpChildConditions", " for " << m_nodeId);
     for (NodeImplPtr &child : m_children)
       child->cleanUpConditions();
-    for (NodeImplPtr &child : m_children)
-      child->cleanUpNodeBody();
   }
 
   NodeImpl const *ListNode::findChild(char const *childName) const
-- 
2.43.0


From 94171dc8fb313b60798d92589a7f584c05466400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:24 +0000
Subject: [PATCH 015/110] fix: remove listeners from the elements of long
 expression vectors

---
 src/intfc/ExprVec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intfc/ExprVec.cc b/src/intfc/ExprVec.cc
index a75241d..e43af0c 100644
--- a/src/intfc/ExprVec.cc
+++ b/src/intfc/ExprVec.cc
@@ -261,7 +261,7 @@ namespace PLEXIL
     virtual void removeListener(ExpressionListener *l) override
     {
       for (size_t i = 0; i < m_size; ++i)
-        exprs[i]->addListener(l);
+        exprs[i]->removeListener(l);
     }
 
     //! \brief Call a function on all subexpressions of this object.
-- 
2.43.0


From 3387f3d529d22111d22d5186a4b700ef847e6c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:24 +0000
Subject: [PATCH 016/110] fix: keep lookups in pre- and post-conditions up to
 date with their parameters

---
 src/exec/NodeImpl.cc | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index 87d8b75..ba9ea78 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -352,18 +352,11 @@ namespace PLEXIL
     //
 
     // Add listeners to local conditions
+    // N.B. Pre- and post-conditions don't cause transitions by themselves,
+    // but a Lookup only tracks changes to its parameters if something is listening.
     for (size_t condIdx = skipIdx; condIdx < conditionIndexMax; ++condIdx)
-      switch (condIdx) {
-
-      case postIdx:
-      case preIdx:
-        break; // these conditions don't need listeners
-
-      default:
-        if (m_conditions[condIdx])
-          m_conditions[condIdx]->addListener(this);
-        break;
-      }
+      if (m_conditions[condIdx])
+        m_conditions[condIdx]->addListener(this);
 
     // Attach listeners to ancestor invariant and ancestor end conditions
     // Root node doesn't need them because the default conditions are constants
-- 
2.43.0


From f1a5ef9e2e5b9edd91ce86b1d57296e69b9f2052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 017/110] fix: compare dates, durations and node timepoints for
 equality

---
 src/expr/Comparisons.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expr/Comparisons.cc b/src/expr/Comparisons.cc
index 356e713..673c528 100644
--- a/src/expr/Comparisons.cc
+++ b/src/expr/Comparisons.cc
@@ -129,6 +129,8 @@ namespace PLEXIL
       // else fall through to Real case
 
     case REAL_TYPE:
+    case DATE_TYPE:
+    case DURATION_TYPE:
       return compareEqual<Real>(result, argA, argB);
 
     case STRING_TYPE:
-- 
2.43.0


From 408866224133f2876d6646533f1d1a1b5b6d80c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 018/110] fix: choose comparison operators which suit operands
 whose type isn't known yet

---
 src/xml-parser/Operations.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/xml-parser/Operations.cc b/src/xml-parser/Operations.cc
index 00bf7cb..bb979c0 100644
--- a/src/xml-parser/Operations.cc
+++ b/src/xml-parser/Operations.cc
@@ -635,9 +635,8 @@ namespace PLEXIL
     if (typeA == UNKNOWN_TYPE) {
       switch (typeB) {
       case REAL_TYPE:
-        return REAL_TYPE;
       case INTEGER_TYPE:
-        return INTEGER_TYPE;
+        return REAL_TYPE; // safe
       case STRING_TYPE:
         return STRING_TYPE;
       default:
@@ -662,6 +661,9 @@ namespace PLEXIL
       else
         return UNKNOWN_TYPE; // illegal
 
+    case STRING_TYPE:
+      return typeB == UNKNOWN_TYPE ? STRING_TYPE : UNKNOWN_TYPE;
+
     default:
       return UNKNOWN_TYPE;
     }
-- 
2.43.0


From 47c35f21bf82c8578bae2ae000b8d0cf772d6d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 019/110] fix: release mutexes when a node goes directly to
 FINISHED from EXECUTING, FINISHING or FAILING

---
 src/exec/NodeImpl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index ba9ea78..dd83eaf 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -1370,7 +1370,7 @@ namespace PLEXIL
   void NodeImpl::transitionToFinished()
   {
     // If transitioning from FAILING,, Release any mutexes held by this node
-    if (m_usingMutexes && m_state == WAITING_STATE) {
+    if (m_usingMutexes && m_state != WAITING_STATE) {
       for (Mutex *m : *m_usingMutexes)
         m->release(this);
     }
-- 
2.43.0


From 35aa642e760982ecb245e604cf62044a185c189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 020/110] fix: ignore further changes to a pending node which
 is already to be rechecked

---
 src/exec/NodeImpl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index dd83eaf..c03ae3c 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -599,6 +599,7 @@ namespace PLEXIL
       return;
 
     case QUEUE_PENDING_CHECK:     // already a candidate, silently ignore
+    case QUEUE_PENDING_TRY_CHECK: // ditto
       return;
 
     case QUEUE_TRANSITION_CHECK:  // already a candidate, silently ignore
-- 
2.43.0


From ec7c5eeb1aa33a646e4554dd3f12277741620ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 021/110] fix: don't corrupt the queues when a pending node is
 no longer eligible to execute

---
 src/exec/PlexilExec.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/exec/PlexilExec.cc b/src/exec/PlexilExec.cc
index aefeda2..0995513 100644
--- a/src/exec/PlexilExec.cc
+++ b/src/exec/PlexilExec.cc
@@ -500,9 +500,11 @@ namespace PLEXIL
           removePendingNode(node);
           addStateChangeNode(node);
         }
-        // else still eligible to transition to EXECUTING,
-        // but resources not available
-        node->setQueueStatus(QUEUE_PENDING);
+        else {
+          // still eligible to transition to EXECUTING,
+          // but resources not available
+          node->setQueueStatus(QUEUE_PENDING);
+        }
         return false;
 
       case QUEUE_PENDING_TRY_CHECK:
@@ -556,10 +558,11 @@ namespace PLEXIL
 
         Node *temp = priorityHead;
         do {
+          Node *const following = temp->next(); // temp may be moved to another queue
           if (resourceCheckEligible(temp)) 
             // Resource(s) were released, give it a look
             priorityNodes.push_back(temp);
-          temp = temp->next();
+          temp = following;
         } while (temp && temp->getPriority() == thisPriority);
 
         // temp is at end of queue,
-- 
2.43.0


From e6d18664e2e59d8dc981791a6851250bc45fc246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 022/110] fix: keep the tail of a LinkedQueue when inserting
 after its last item

---
 src/utils/LinkedQueue.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/LinkedQueue.hh b/src/utils/LinkedQueue.hh
index d3bd1ed..e2d1fcf 100644
--- a/src/utils/LinkedQueue.hh
+++ b/src/utils/LinkedQueue.hh
@@ -191,7 +191,7 @@ namespace PLEXIL
         *nxtPtr = item;
         *(item->nextPtr()) = nxt;
         if (!nxt)
-          m_tail = nxt;
+          m_tail = item;
         ++m_count;
       }
       return iterator(item);
-- 
2.43.0


From f2b490420df6fffc61c741f55c14037084a937d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 023/110] fix: step when a node waiting for a resource has
 something to check

---
 src/exec/NodeImpl.cc   | 20 ++++++++++----------
 src/exec/PlexilExec.cc | 14 ++++++++++++--
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index c03ae3c..817ae58 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -637,10 +637,10 @@ namespace PLEXIL
     bool success = true;
     if (m_usingMutexes) {
       for (Mutex *m : *m_usingMutexes) {
-        success = m->acquire(this);
+        Node const *holder = dynamic_cast<Node const *>(m->getHolder());
+        success = !holder;
         if (!success) {
           // Check for recursive acquisition on failure
-          Node const *holder = dynamic_cast<Node const *>(m->getHolder());
           Node const *ancestor = this->getParent();
           while (ancestor) {
             checkPlanError(holder != ancestor,
@@ -662,7 +662,7 @@ namespace PLEXIL
         success = var->acquire(this);
       }
       else {
-        // Acquiring other resources failed, so just queue up
+        // Other resources aren't available, so just queue up
         var->addWaitingNode(this);
       }
     }
@@ -671,14 +671,14 @@ namespace PLEXIL
              ' ' << m_nodeId << ' ' << this
              << (success ? " succeeded" : " failed"));
 
-    if (!success) {
-      // If we couldn't get all the resources, release the resources we got
-      if (m_usingMutexes) {
-        for (Mutex *m : *m_usingMutexes) {
-          if (this == dynamic_cast<Node const *>(m->getHolder()))
-            m->release(this);
+    // Take the mutexes only if everything is available. Taking some and then
+    // releasing them would wake the other nodes waiting for them to no purpose.
+    if (m_usingMutexes) {
+      for (Mutex *m : *m_usingMutexes) {
+        if (success)
+          m->acquire(this);
+        else
           m->addWaitingNode(this); // no harm if already there
-        }
       }
     }
     return success;
diff --git a/src/exec/PlexilExec.cc b/src/exec/PlexilExec.cc
index 0995513..39094e3 100644
--- a/src/exec/PlexilExec.cc
+++ b/src/exec/PlexilExec.cc
@@ -240,7 +240,7 @@ namespace PLEXIL
     //! \return True if the Exec needs to be stepped, false otherwise.
     virtual bool needsStep() const override
     {
-      return !m_candidateQueue.empty();
+      return !m_candidateQueue.empty() || pendingNodesToCheck();
     }
 
     //! \brief Run a single "macro step" i.e. the entire quiescence cycle.
@@ -377,7 +377,7 @@ namespace PLEXIL
              && m_assignmentsToRetract.empty()
              && m_commandsToExecute.empty()
              && m_commandsToAbort.empty()
-             && !m_candidateQueue.empty());
+             && needsStep());
       // END QUIESCENCE LOOP
 
       // Perform side effects
@@ -479,6 +479,16 @@ namespace PLEXIL
       return node->acquiresResources();
     }
 
+    //! \brief Has anything changed for any node on the pending queue?
+    //! \return true if so, false otherwise.
+    bool pendingNodesToCheck() const
+    {
+      for (Node *node = m_pendingQueue.front(); node; node = node->next())
+        if (node->getQueueStatus() != QUEUE_PENDING)
+          return true;
+      return false;
+    }
+
     //! \brief Check whether a node on the pending queue should attempt to acquire resources.
     //!        Remove from pending queue if no longer eligible to execute.
     //!        Add to the state change queue if should transition to some other state.
-- 
2.43.0


From a9959cdf88d8482bf07a767c314965cd1b7adfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:03 +0000
Subject: [PATCH 024/110] fix: report assignments under the name of the element
 actually assigned

---
 src/exec/Assignment.cc | 5 +++--
 src/exec/Assignment.hh | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/exec/Assignment.cc b/src/exec/Assignment.cc
index 8d3d8d7..c1d1eb9 100644
--- a/src/exec/Assignment.cc
+++ b/src/exec/Assignment.cc
@@ -122,6 +122,7 @@ namespace PLEXIL
   void Assignment::fixValue() 
   {
     m_dest->saveCurrentValue();
+    m_destName = m_dest->getName();
     m_value = m_rhs->toValue();
   }
 
@@ -145,7 +146,7 @@ namespace PLEXIL
     m_dest->setValue(m_value);
     m_ack.setValue(true);
     if (listener)
-      listener->notifyOfAssignment(m_dest, m_dest->getName(), m_value);
+      listener->notifyOfAssignment(m_dest, m_destName, m_value);
   }
 
   void Assignment::retract(ExecListenerBase *listener)
@@ -155,7 +156,7 @@ namespace PLEXIL
     m_abortComplete.setValue(true);
     if (listener)
       listener->notifyOfAssignment(m_dest,
-                                   m_dest->getName(),
+                                   m_destName,
                                    m_dest->getSavedValue());
   }
 
diff --git a/src/exec/Assignment.hh b/src/exec/Assignment.hh
index eaed22a..fd6f084 100644
--- a/src/exec/Assignment.hh
+++ b/src/exec/Assignment.hh
@@ -129,6 +129,7 @@ namespace PLEXIL
 
     //! \brief The value to be assigned.  Only valid after calling fixValue().
     Value m_value; // TODO: templatize by assignable type?
+    std::string m_destName; // as of when the value was fixed
 
     //! \brief Next pointer for LinkedQueue.
     Assignment *m_next;
-- 
2.43.0


From 56531c2a5c1060071d17d69f486ca7b60f994735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:09 +0000
Subject: [PATCH 025/110] fix: report a plan error if a command's name is
 unknown

---
 src/intfc/CommandImpl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intfc/CommandImpl.cc b/src/intfc/CommandImpl.cc
index 6ca5d64..2923d2b 100644
--- a/src/intfc/CommandImpl.cc
+++ b/src/intfc/CommandImpl.cc
@@ -370,7 +370,7 @@ namespace PLEXIL
     }
     else {
       // Name is unknown - report plan error
-      // TODO
+      reportPlanError("Command name is unknown");
     }
   }
 
-- 
2.43.0


From 3d4acf167d871f76c8a7f8e99bb27333fb283ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 026/110] fix: don't activate a Command's exit condition twice

---
 src/exec/CommandNode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exec/CommandNode.cc b/src/exec/CommandNode.cc
index cf52343..2379c29 100644
--- a/src/exec/CommandNode.cc
+++ b/src/exec/CommandNode.cc
@@ -201,8 +201,8 @@ namespace PLEXIL
   {
     activateLocalVariables();
 
+    // From WAITING, AncestorExit, AncestorInvariant, Exit are already active
     activateInvariantCondition();
-    activateExitCondition();
     activateEndCondition();
   }
 
-- 
2.43.0


From 6cc051d6a7bb62a9f1ff2ed6f6f476ece2c4301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:13 +0000
Subject: [PATCH 027/110] fix: skip a node which is still waiting once its
 parent has stopped executing

---
 src/exec/NodeImpl.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index 817ae58..85e4be7 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -978,6 +978,18 @@ namespace PLEXIL
   {
     Expression *cond;
     bool temp;
+
+    // The parent ended while this node was being repeated. It may be past
+    // waiting for this node, so don't start another iteration.
+    if (m_parent && m_parent->getState() != EXECUTING_STATE) {
+      debugMsg("Node:getDestState",
+               ' ' << m_nodeId << ' ' << this << ' ' << nodeStateName(m_state)
+               << " -> FINISHED. Parent state != EXECUTING.");
+      m_nextState = FINISHED_STATE;
+      m_nextOutcome = SKIPPED_OUTCOME;
+      return true;
+    }
+
     if ((cond = getAncestorExitCondition())) {
       checkError(cond->isActive(),
                  "NodeImpl::getDestStateFromWaiting: Ancestor exit for "
-- 
2.43.0


From f23c41382ccbe070eeedc95758d8382eb2430a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 028/110] fix: allow lookups of a state to come and go while
 its new value is published

---
 src/intfc/StateCacheEntry.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/intfc/StateCacheEntry.cc b/src/intfc/StateCacheEntry.cc
index b94e5ba..215bb8f 100644
--- a/src/intfc/StateCacheEntry.cc
+++ b/src/intfc/StateCacheEntry.cc
@@ -379,8 +379,12 @@ namespace PLEXIL
     //! \brief Notify all subscribed Lookups of a change in value.
     void notify() const
     {
-      for (Lookup *lkup : m_lookups)
-        lkup->valueChanged();
+      // A lookup may be registered or unregistered here as a consequence,
+      // e.g. one whose parameters depend on another lookup of this state.
+      std::vector<Lookup *> const lookups(m_lookups);
+      for (Lookup *lkup : lookups)
+        if (std::find(m_lookups.begin(), m_lookups.end(), lkup) != m_lookups.end())
+          lkup->valueChanged();
     }
 
     //! \brief Ensure the state cache entry has a CachedValue object
-- 
2.43.0


From 98a891115b2e1d3b7841a3b83d4b86fe55aa2311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:40 +0000
Subject: [PATCH 029/110] fix: publish the change when a Command's handle is
 reset for another iteration

---
 src/intfc/CommandImpl.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/intfc/CommandImpl.cc b/src/intfc/CommandImpl.cc
index 2923d2b..6dcb89e 100644
--- a/src/intfc/CommandImpl.cc
+++ b/src/intfc/CommandImpl.cc
@@ -433,9 +433,12 @@ namespace PLEXIL
   {
     check_error_1(!m_active);
 
+    bool const hadHandle = m_commandHandle != NO_COMMAND_HANDLE;
     m_commandHandle = NO_COMMAND_HANDLE;
     m_ack.activate();
     m_abortComplete.activate();
+    if (hadHandle)
+      m_ack.publishChange(); // from an earlier iteration
 
     // Check for constancy and set up internal data structures at
     // first activation.
-- 
2.43.0


From 70d9892c5fd05026836ae6987627dd0aa976035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:40 +0000
Subject: [PATCH 030/110] fix: look up the right state when a parameter changes
 as the Lookup is activated

---
 src/intfc/Lookup.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 31a0504..fe43aa3 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -374,15 +374,18 @@ namespace PLEXIL
         m_paramVec->activate();
 
       // Compute current state and cache it
-      if (!m_stateIsConstant)
-        m_stateKnown = getState(m_cachedState);
-      if (!m_entry && m_stateKnown) {
+      if (!m_stateIsConstant) {
+        // This may have been notified, and looked up some other state,
+        // while only some of the parameters were active.
+        handleChangeInternal();
+        return;
+      }
+      if (!m_entry) {
         m_entry =
           StateCache::instance().ensureStateCacheEntry(m_cachedState);
         assertTrue_2(m_entry, "Lookup::handleActivate: Failed to get state cache entry");
       }
-      if (m_entry)
-        ensureRegistered();
+      ensureRegistered();
     }
 
     //! \brief Perform any necessary actions to enter the inactive state.
-- 
2.43.0


From 1aae7eb63b6719fb7380f5249442a5bd522354d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:35 +0000
Subject: [PATCH 031/110] fix: don't overflow in Integer division

---
 src/expr/ArithmeticOperators.cc | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/expr/ArithmeticOperators.cc b/src/expr/ArithmeticOperators.cc
index 075771d..f17436d 100644
--- a/src/expr/ArithmeticOperators.cc
+++ b/src/expr/ArithmeticOperators.cc
@@ -29,6 +29,7 @@
 #include "PlanError.hh"
 
 #include <cmath>
+#include <limits>
 
 namespace PLEXIL
 {
@@ -217,6 +218,22 @@ namespace PLEXIL
   }
 
   // TODO: warn on zero divisor?
+
+  // Integer implementation
+  template <>
+  bool Division<Integer>::calc(Integer &result, Expression const *arg0, Expression const *arg1) const
+  {
+    Integer temp0, temp1;
+    if (!(arg0->getValue(temp0) && arg1->getValue(temp1))
+        || temp1 == 0)
+      return false;
+    if (temp1 == -1 && temp0 == std::numeric_limits<Integer>::min())
+      return false; // quotient can't be represented
+    result = temp0 / temp1;
+    return true;
+  }
+
+  // Real implementation
   template <typename NUM>
   bool Division<NUM>::calc(NUM &result, Expression const *arg0, Expression const *arg1) const
   {
@@ -252,7 +269,10 @@ namespace PLEXIL
     if (!(arg0->getValue(temp0) && arg1->getValue(temp1))
         || temp1 == 0)
       return false;
-    result = temp0 % temp1;
+    if (temp1 == -1)
+      result = 0; // the quotient may not be representable
+    else
+      result = temp0 % temp1;
     return true;
   }
 
-- 
2.43.0


From 20be2ae8e0000a0ed3a09c0e50ee816d06000bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:05 +0000
Subject: [PATCH 032/110] fix: let a Command's explicit request for a child
 resource override the hierarchy's

---
 src/intfc/ResourceArbiterInterface.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/intfc/ResourceArbiterInterface.cc b/src/intfc/ResourceArbiterInterface.cc
index 503812a..7c9b87e 100644
--- a/src/intfc/ResourceArbiterInterface.cc
+++ b/src/intfc/ResourceArbiterInterface.cc
@@ -308,7 +308,7 @@ namespace PLEXIL
     for (ChildResourceNode const &fres : flattenedRes) {
       if (resourcesNeeded.find(fres) == resourcesNeeded.end())
         resourcesNeeded.insert(fres);
-      else if (fres.name == requestName)
+      else if (fres.name == requestName) {
         // If current is explicitly specified in 
         // the command then the value can be overwritten. The
         // child resource scales will not be overwritten however.
@@ -316,7 +316,9 @@ namespace PLEXIL
         // of the flattened vector. This means that if a resource value
         // has to be overwritten it has to be explicitly scpecified in the 
         // plan
+        resourcesNeeded.erase(fres);
         resourcesNeeded.insert(fres);
+      }
     }
   }
 
-- 
2.43.0


From 1e6f848bc85e17fd60824a4679009bb8912b784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:12 +0000
Subject: [PATCH 033/110] fix: don't let rounding errors in resource levels
 deny a Command which fits

---
 src/intfc/ResourceArbiterInterface.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/intfc/ResourceArbiterInterface.cc b/src/intfc/ResourceArbiterInterface.cc
index 7c9b87e..7c173b1 100644
--- a/src/intfc/ResourceArbiterInterface.cc
+++ b/src/intfc/ResourceArbiterInterface.cc
@@ -36,6 +36,7 @@
 #include <set>
 
 #include <cctype>
+#include <cmath> // std::fabs()
 #include <cstdlib> // strtod()
 #include <cstring> // strspn(), strcspn() et al
 
@@ -364,6 +365,10 @@ namespace PLEXIL
   }
 
 
+  //! \brief Accumulated error in resource levels, from adding and subtracting weights
+  //!        such as 0.1, which is too small to be a genuine difference.
+  static constexpr double ROUNDING_TOLERANCE = 1e-9;
+
   class ResourceArbiterImpl : public ResourceArbiterInterface
   {
   private:
@@ -547,7 +552,7 @@ namespace PLEXIL
       for (ChildResourceNode const &res : resListIter->second) {
         if (res.release) {
           m_allocated[res.name] -= res.weight;
-          if (m_allocated[res.name] == 0.0)
+          if (std::fabs(m_allocated[res.name]) < ROUNDING_TOLERANCE)
             m_allocated.erase(res.name);
         }
       }
@@ -625,14 +630,14 @@ namespace PLEXIL
           // the permitted maximum. This handles the worst case resource usage 
           // behavior of both types of resources.
           double resMax = maxConsumableResourceValue(res.name);
-          if (est.renewable < 0.0 || est.renewable > resMax) {
+          if (est.renewable < -ROUNDING_TOLERANCE || est.renewable > resMax + ROUNDING_TOLERANCE) {
             invalid = true;
             debugMsg("ResourceArbiter:optimalResourceArbitration",
                      " rejecting " << cmd->getName()
                      << " because renewable usage of " << res.name << " exceeds limits");
             break; // from inner loop
           }
-          if (est.consumable < 0.0 || est.consumable > resMax) {
+          if (est.consumable < -ROUNDING_TOLERANCE || est.consumable > resMax + ROUNDING_TOLERANCE) {
             invalid = true;
             debugMsg("ResourceArbiter:optimalResourceArbitration",
                      " rejecting " << cmd->getName()
-- 
2.43.0


From a8e61a77df34a825de1df9f8629992916145327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:12 +0000
Subject: [PATCH 034/110] fix: release the resources of a Command denied by the
 external system

---
 src/intfc/CommandImpl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/intfc/CommandImpl.cc b/src/intfc/CommandImpl.cc
index 6dcb89e..d373af0 100644
--- a/src/intfc/CommandImpl.cc
+++ b/src/intfc/CommandImpl.cc
@@ -498,7 +498,9 @@ namespace PLEXIL
     check_error_1(m_active);
     m_active = false;
 
-    if (m_commandHandle != COMMAND_DENIED && arbiter) // handle unit tests
+    // N.B. No-op if the arbiter denied this command.
+    // The external system may also deny one the arbiter has accepted.
+    if (arbiter) // handle unit tests
       arbiter->releaseResourcesForCommand(this);
 
     m_abortComplete.deactivate();
-- 
2.43.0


From 10b55db46cfddfc2707eac1252732ae7401ee677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 035/110] fix: don't delete finished plans while any of their
 nodes may be queued

---
 src/exec/PlexilExec.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/exec/PlexilExec.cc b/src/exec/PlexilExec.cc
index 39094e3..9adc395 100644
--- a/src/exec/PlexilExec.cc
+++ b/src/exec/PlexilExec.cc
@@ -223,6 +223,10 @@ namespace PLEXIL
     //! \brief Delete any plans (root nodes) which have finished.
     virtual void deleteFinishedPlans() override
     {
+      // Nodes inside a finished plan may still have to be checked
+      if (needsStep())
+        return;
+
       while (!m_finishedRootNodes.empty()) {
         Node *node = m_finishedRootNodes.front();
         m_finishedRootNodes.pop();
-- 
2.43.0


From 2df2e7275bd3c9719861d92fa56086b300a14dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 036/110] fix: keep lookups in library call aliases up to date
 with their parameters

---
 src/exec/LibraryCallNode.cc | 33 +++++++++++++++++++++++++++++++++
 src/exec/LibraryCallNode.hh |  8 ++++++--
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/exec/LibraryCallNode.cc b/src/exec/LibraryCallNode.cc
index 1edf324..cb7a28c 100644
--- a/src/exec/LibraryCallNode.cc
+++ b/src/exec/LibraryCallNode.cc
@@ -50,6 +50,37 @@ namespace PLEXIL
                "Invalid node type " << type << " for a LibraryCallNode");
   }
 
+  // Listens to aliases. Lookups only follow changes of their parameters
+  // if there's a listener, and the called node may read the alias at any time.
+  class AliasListener final : public ExpressionListener
+  {
+  public:
+    virtual void notifyChanged() override
+    {
+    }
+  };
+
+  static AliasListener s_aliasListener;
+
+  LibraryCallNode::~LibraryCallNode()
+  {
+    cleanUpConditions();
+  }
+
+  void LibraryCallNode::cleanUpConditions()
+  {
+    if (m_cleanedConditions)
+      return;
+
+    debugMsg("LibraryCallNode:cleanUpConditions", " for " << m_nodeId);
+
+    if (m_aliasMap && m_localVariables)
+      for (std::unique_ptr<Expression> &exp : *m_localVariables)
+        exp->removeListener(&s_aliasListener);
+
+    ListNode::cleanUpConditions();
+  }
+
   void LibraryCallNode::cleanUpNodeBody()
   {
     if (m_cleanedBody)
@@ -82,6 +113,8 @@ namespace PLEXIL
       if (!m_localVariables)
         m_localVariables.reset(new std::vector<std::unique_ptr<Expression>>());
 
+      exp->addListener(&s_aliasListener);
+
       // N.B. Aliases can refer to local variables,
       // so ensure the alias gets cleaned up first by inserting it in the front.
       m_localVariables->insert(m_localVariables->begin(),
diff --git a/src/exec/LibraryCallNode.hh b/src/exec/LibraryCallNode.hh
index 46f76cc..819f237 100644
--- a/src/exec/LibraryCallNode.hh
+++ b/src/exec/LibraryCallNode.hh
@@ -60,8 +60,8 @@ namespace PLEXIL
                     NodeImpl *parent = nullptr);
 
     //! \brief Virtual destructor.
-    //! \note ListNode destructor performs all the necessary calls.
-    virtual ~LibraryCallNode() = default;
+    //! \note ListNode destructor performs all the other necessary calls.
+    virtual ~LibraryCallNode();
 
     //! \brief Get the type of this node.
     //! \return The type of this node.
@@ -89,6 +89,10 @@ namespace PLEXIL
 
   protected:
 
+    //! \brief Delete condition expressions, and stop listening to the aliases.
+    //! \note Wraps ListNode method.
+    virtual void cleanUpConditions() override;
+
     //! \brief Delete any additional objects as applicable for the node type.
     //! \note Wraps ListNode method.
     virtual void cleanUpNodeBody() override;
-- 
2.43.0


From 4fd2d60a0eb80d2654fa57e61f01ea9c8aff7803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 037/110] fix: allow default values of InOut arrays in library
 nodes

---
 src/xml-parser/parseNode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml-parser/parseNode.cc b/src/xml-parser/parseNode.cc
index 77c23dc..c8a805e 100644
--- a/src/xml-parser/parseNode.cc
+++ b/src/xml-parser/parseNode.cc
@@ -1199,7 +1199,7 @@ namespace PLEXIL
       // Parse and check initial value expression
       bool initGarbage, garbage;
       Expression *initExp = parseVariableInitializer(initGarbage, node, inOutXml, isCall);
-      Expression *var = createAssignable(inOutXml, node, garbage);
+      Expression *var = createExpression(inOutXml, node, garbage);
       assertTrue_1(garbage); // better be something we can delete!
       if (!node->addLocalVariable(name, var)) {
         delete var;
-- 
2.43.0


From 1b689700b4ccdfd8b4e25318d97d8f9517063c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:05 +0000
Subject: [PATCH 038/110] fix: unregister a Lookup whose state changes while
 it's being registered

---
 src/intfc/Lookup.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index fe43aa3..d76dfc6 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -476,8 +476,9 @@ namespace PLEXIL
       if (m_isRegistered)
         return;
       debugMsg("Lookup:register", ' ' << m_cachedState);
-      m_entry->registerLookup(m_cachedState, this);
+      // Registering may get a new value, and notify this of it
       m_isRegistered = true;
+      m_entry->registerLookup(m_cachedState, this);
     }
 
     //! \brief Unregister this lookup from the state cache.
-- 
2.43.0


From f052b0e798a96c401422c8ba5dd2a4cf2fc43f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 039/110] fix: note when a state was looked up even if its
 value hasn't changed

---
 src/intfc/CachedValueImpl.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/intfc/CachedValueImpl.cc b/src/intfc/CachedValueImpl.cc
index 57fd294..31c47c4 100644
--- a/src/intfc/CachedValueImpl.cc
+++ b/src/intfc/CachedValueImpl.cc
@@ -537,10 +537,10 @@ namespace PLEXIL
   template <typename T>
   bool CachedValueImpl<T>::update(unsigned int timestamp, T const &val)
   {
+    this->m_timestamp = timestamp;
     if (!m_known || m_value != val) {
       m_value = val;
       m_known = true;
-      this->m_timestamp = timestamp;
       debugMsg("CachedValue:update", " updated to " << val);
       return true;
     }
@@ -550,10 +550,10 @@ namespace PLEXIL
 
   bool CachedValueImpl<Integer>::update(unsigned int timestamp, Integer const &val)
   {
+    this->m_timestamp = timestamp;
     if (!m_known || m_value != val) {
       m_value = val;
       m_known = true;
-      this->m_timestamp = timestamp;
       debugMsg("CachedValue:update", " updated to " << val);
       return true;
     }
@@ -564,10 +564,10 @@ namespace PLEXIL
   // Real is different for debug printing purposes.
   bool CachedValueImpl<Real>::update(unsigned int timestamp, Real const &val)
   {
+    this->m_timestamp = timestamp;
     if (!m_known || m_value != val) {
       m_value = val;
       m_known = true;
-      this->m_timestamp = timestamp;
       debugMsg("CachedValue:update", " updated to " << std::setprecision(15) << val);
       return true;
     }
@@ -577,10 +577,10 @@ namespace PLEXIL
 
   bool CachedValueImpl<String>::update(unsigned int timestamp, String const &val)
   {
+    this->m_timestamp = timestamp;
     if (!m_known || m_value != val) {
       m_value = val;
       m_known = true;
-      this->m_timestamp = timestamp;
       return true;
     }
     return false;
@@ -663,10 +663,10 @@ namespace PLEXIL
 
   bool CachedValueImpl<String>::updatePtr(unsigned int timestamp, std::string const *ptr)
   {
+    this->m_timestamp = timestamp;
     if (!m_known || m_value != *ptr) {
       m_value = *ptr;
       m_known = true;
-      this->m_timestamp = timestamp;
       return true;
     }
     return false;
@@ -675,10 +675,10 @@ namespace PLEXIL
   template <typename T>
   bool CachedValueImpl<ArrayImpl<T> >::updatePtr(unsigned int timestamp, ArrayImpl<T> const *ptr)
   {
+    this->m_timestamp = timestamp;
     if (!m_known || m_value != *ptr) {
       m_value = *ptr;
       m_known = true;
-      this->m_timestamp = timestamp;
       return true;
     }
     return false;
-- 
2.43.0


From 551db5cd4b84a845a18e50ac14749902babb0a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:53 +0000
Subject: [PATCH 040/110] fix: don't convert a Real which isn't a number to
 Integer

---
 src/expr/ConversionOperators.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/expr/ConversionOperators.cc b/src/expr/ConversionOperators.cc
index c790d74..1f2365e 100644
--- a/src/expr/ConversionOperators.cc
+++ b/src/expr/ConversionOperators.cc
@@ -44,9 +44,9 @@ namespace PLEXIL
   //
   static bool RealToInt(Real reel, Integer &result)
   {
-    if (reel < std::numeric_limits<Integer>::min()
-        || reel > std::numeric_limits<Integer>::max())
-      return false; // out of range
+    if (!(reel >= std::numeric_limits<Integer>::min()
+          && reel <= std::numeric_limits<Integer>::max()))
+      return false; // out of range, or not a number
     Integer tempResult = (Integer) reel;
     Real fraction = (Real) (reel - (Real) tempResult);
     // TODO: allow fraction to be +/- epsilon
-- 
2.43.0


From 3f33e6dbd4e43900fcbd63fd68e7e63e618a5ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:02 +0000
Subject: [PATCH 041/110] fix: SimpleSet::find() can be used on a const set

---
 src/utils/SimpleSet.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/SimpleSet.hh b/src/utils/SimpleSet.hh
index 938fc0c..cd81821 100644
--- a/src/utils/SimpleSet.hh
+++ b/src/utils/SimpleSet.hh
@@ -87,7 +87,7 @@ namespace PLEXIL
     const_iterator find(VALUE_TYPE const &val) const
     {
       static Comparator s_comp;
-      typename STORE_TYPE::iterator it = 
+      typename STORE_TYPE::const_iterator it = 
         std::lower_bound(m_store.begin(), m_store.end(), val, s_comp);
       if (it == m_store.end() || s_comp.equal(*it, val))
         return it;
-- 
2.43.0


From ee8ceb38333bc66dae5515b2bda7c3ca280d75f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:02 +0000
Subject: [PATCH 042/110] fix: const SimpleMap can be indexed when its values
 are scalars

---
 src/utils/SimpleMap.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/SimpleMap.hh b/src/utils/SimpleMap.hh
index 537c4bd..fd16031 100644
--- a/src/utils/SimpleMap.hh
+++ b/src/utils/SimpleMap.hh
@@ -170,7 +170,7 @@ namespace PLEXIL
       typename MAP_STORE_TYPE::const_iterator it = 
         std::lower_bound(m_store.begin(), m_store.end(), index, s_comp);
       if (it == m_store.end() || !s_comp.equal(*it, index)) {
-        static VALUE_TYPE const sl_empty;
+        static VALUE_TYPE const sl_empty{};
         return sl_empty;
       }
       return it->second;
-- 
2.43.0


From 09dc4ef51a7f759c3530af0402f25514e31a4c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:02 +0000
Subject: [PATCH 043/110] fix: PosixTimebase tick intervals over 4.29 seconds

---
 src/app-framework/PosixTimebase.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app-framework/PosixTimebase.cc b/src/app-framework/PosixTimebase.cc
index 833bbac..8ab79d0 100644
--- a/src/app-framework/PosixTimebase.cc
+++ b/src/app-framework/PosixTimebase.cc
@@ -112,7 +112,7 @@ namespace PLEXIL
       struct itimerspec tymrSpec = {{0, 0}, {0, 0}};
 
       // Calculate repeat interval in nanosec.
-      uint64_t nanos = 1000 * m_interval_usec;
+      uint64_t nanos = 1000 * (uint64_t) m_interval_usec;
       tymrSpec.it_interval.tv_sec  = nanos / NSEC_PER_SEC; // better be *integer* divide!
       tymrSpec.it_interval.tv_nsec = nanos % NSEC_PER_SEC;
       // Set initial interval to the same
-- 
2.43.0


From 0460c4d4484051486c936398576bc06edb9dd61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:02 +0000
Subject: [PATCH 044/110] fix: a timebase which was stopped can be started
 again

---
 src/app-framework/ItimerTimebase.cc | 1 +
 src/app-framework/PosixTimebase.cc  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/app-framework/ItimerTimebase.cc b/src/app-framework/ItimerTimebase.cc
index a73eb1f..642667b 100644
--- a/src/app-framework/ItimerTimebase.cc
+++ b/src/app-framework/ItimerTimebase.cc
@@ -148,6 +148,7 @@ namespace PLEXIL
              << errno << ":\n " << strerror(errno));
       }
 
+      m_started = false;
       debugMsg("ItimerTimebase:stop", " complete");
     }
 
diff --git a/src/app-framework/PosixTimebase.cc b/src/app-framework/PosixTimebase.cc
index 8ab79d0..c77a9a0 100644
--- a/src/app-framework/PosixTimebase.cc
+++ b/src/app-framework/PosixTimebase.cc
@@ -157,6 +157,7 @@ namespace PLEXIL
         warn("PosixTimebase:stop: timer_delete failed, errno = "
              << errno << ":\n " << strerror(errno));
       }
+      m_started = false;
       debugMsg("PosixTimebase:stop", " complete");
     }
 
-- 
2.43.0


From ab0a198d83d9361565248831d1c6cb56b2029e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:02 +0000
Subject: [PATCH 045/110] fix: ItimerTimebase wakes up for a deadline which is
 right now

---
 src/app-framework/ItimerTimebase.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/app-framework/ItimerTimebase.cc b/src/app-framework/ItimerTimebase.cc
index 642667b..00e7977 100644
--- a/src/app-framework/ItimerTimebase.cc
+++ b/src/app-framework/ItimerTimebase.cc
@@ -174,7 +174,8 @@ namespace PLEXIL
                           << errno << ":\n " << strerror(errno));
                           
       // Have we missed the deadline already?
-      if (deadline < now) {
+      // (a deadline of now would disarm the timer instead of setting it)
+      if (!(now < deadline)) {
         // Already past the scheduled time
         debugMsg("ItimerTimebase:setTimer",
                  " new value " << std::fixed << std::setprecision(6) << d
-- 
2.43.0


From b2a9e7779d947d2a54b65c5b35118ec684ffc035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:28 +0000
Subject: [PATCH 046/110] fix: a second exec listener (filter) factory of the
 same name is not deleted while it is constructed

---
 src/app-framework/ExecListenerFactory.cc       | 12 +++---------
 src/app-framework/ExecListenerFilterFactory.cc | 11 +++--------
 2 files changed, 6 insertions(+), 17 deletions(-)

diff --git a/src/app-framework/ExecListenerFactory.cc b/src/app-framework/ExecListenerFactory.cc
index 22f8bc1..e5e7f0f 100644
--- a/src/app-framework/ExecListenerFactory.cc
+++ b/src/app-framework/ExecListenerFactory.cc
@@ -138,15 +138,9 @@ namespace PLEXIL
   void ExecListenerFactory::registerFactory(std::string const &name, ExecListenerFactory* factory)
   {
     assertTrue_1(factory);
-    // FIXME: Assert, or replace old factory?
-    if (factoryMap().find(name) != factoryMap().end()) {
-      warn("Attempted to register an exec listener factory for name \""
-           << name.c_str()
-           << "\" twice, ignoring.");
-      delete factory;
-      return;
-    }
-    factoryMap()[name] = ExecListenerFactoryPtr(factory);
+    // The factory is still being constructed, so it must not be deleted here.
+    // As in AdapterFactory, the new one replaces the old.
+    factoryMap()[name].reset(factory);
     debugMsg("ExecListenerFactory:registerFactory",
              " Registered exec listener factory for name \"" << name.c_str() << "\"");
   }
diff --git a/src/app-framework/ExecListenerFilterFactory.cc b/src/app-framework/ExecListenerFilterFactory.cc
index 8c9a91f..8b985d2 100644
--- a/src/app-framework/ExecListenerFilterFactory.cc
+++ b/src/app-framework/ExecListenerFilterFactory.cc
@@ -144,14 +144,9 @@ namespace PLEXIL
                                                   ExecListenerFilterFactory* factory)
   {
     assertTrue_1(factory);
-    if (factoryMap().find(name) != factoryMap().end()) {
-      warn("Attempted to register an exec listener filter factory for name \""
-           << name.c_str()
-           << "\" twice, ignoring.");
-      delete factory;
-      return;
-    }
-    factoryMap()[name] = ExecListenerFilterFactoryPtr(factory);
+    // The factory is still being constructed, so it must not be deleted here.
+    // As in AdapterFactory, the new one replaces the old.
+    factoryMap()[name].reset(factory);
     debugMsg("ExecListenerFilterFactory:registerFactory",
              " Registered exec listener filter factory for name \"" << name.c_str() << "\"");
   }
-- 
2.43.0


From 821c65f83aa8ef44491adb3ce1384e15231c2906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:39 +0000
Subject: [PATCH 047/110] fix: UdpAdapter can send messages whose first
 parameter is not a string

---
 src/interfaces/UdpAdapter/UdpAdapter.cc | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/interfaces/UdpAdapter/UdpAdapter.cc b/src/interfaces/UdpAdapter/UdpAdapter.cc
index 3818609..47b4324 100644
--- a/src/interfaces/UdpAdapter/UdpAdapter.cc
+++ b/src/interfaces/UdpAdapter/UdpAdapter.cc
@@ -248,13 +248,6 @@ namespace PLEXIL
         return;
       }
       
-      if (args[0].valueType() != STRING_TYPE) {
-        warn("UdpAdapter:executeDefaultCommand: message name must be a string");
-        intf->handleCommandAck(cmd, COMMAND_FAILED);
-        intf->notifyOfExternalEvent();
-        return;
-      }
-      
       std::string const &msgName = cmd->getName();
       debugMsg("UdpAdapter:executeDefaultCommand",
                " called for \"" << msgName << "\" with " << args.size() << " args");
-- 
2.43.0


From 2777b0b1fdc3c1bbc82dae26e051609f5d449997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:39 +0000
Subject: [PATCH 048/110] fix: UdpAdapter discards datagrams too short for
 their message

---
 src/interfaces/UdpAdapter/UdpAdapter.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/interfaces/UdpAdapter/UdpAdapter.cc b/src/interfaces/UdpAdapter/UdpAdapter.cc
index 47b4324..32f0824 100644
--- a/src/interfaces/UdpAdapter/UdpAdapter.cc
+++ b/src/interfaces/UdpAdapter/UdpAdapter.cc
@@ -822,6 +822,11 @@ namespace PLEXIL
       // Handle a UDP message once it has indeed arrived.
       // msgDef is passed in, therefore, we will assume it is good.
       debugMsg("UdpAdapter:handleUdpMessage", " called for " << msgDef.name);
+      if (length < msgDef.len) {
+        warn("UdpAdapter: discarding a datagram of " << length << " bytes for message "
+             << msgDef.name << ", which needs " << msgDef.len);
+        return -1;
+      }
       if (m_debug) {
         std::cout << "  handleUdpMessage: buffer: ";
         print_buffer(buffer, msgDef.len);
-- 
2.43.0


From cf52141fb9fe6d04b7a50f3c2bd87c881be422fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:39 +0000
Subject: [PATCH 049/110] fix: the queues of MessageQueueMap are only accessed
 with its mutex held

---
 src/interfaces/UdpAdapter/MessageQueueMap.cc | 64 ++++++++++----------
 src/interfaces/UdpAdapter/MessageQueueMap.hh |  4 +-
 2 files changed, 35 insertions(+), 33 deletions(-)

diff --git a/src/interfaces/UdpAdapter/MessageQueueMap.cc b/src/interfaces/UdpAdapter/MessageQueueMap.cc
index 225b82a..48fca4b 100644
--- a/src/interfaces/UdpAdapter/MessageQueueMap.cc
+++ b/src/interfaces/UdpAdapter/MessageQueueMap.cc
@@ -59,10 +59,16 @@ namespace PLEXIL
    */
   void MessageQueueMap::addRecipient(const std::string& message, Command *cmd) {
     debugMsg("MessageQueueMap:addRecipient", ' ' << this << " for \"" << message << "\"");
-    PairingQueue* que = ensureQueue(message);
-    que->m_recipientQueue.push(cmd);
-    updateQueue(que);
-    debugMsg("MessageQueueMap:addRecipient", ' ' << this << " added for message \"" << que->m_name << '"');
+    bool paired = false;
+    {
+      std::lock_guard<std::mutex> guard(m_mutex);
+      PairingQueue* que = ensureQueue(message);
+      que->m_recipientQueue.push(cmd);
+      paired = updateQueue(que);
+    }
+    if (paired)
+      m_execInterface.notifyOfExternalEvent();
+    debugMsg("MessageQueueMap:addRecipient", ' ' << this << " added for message \"" << message << '"');
   }
 
   /**
@@ -72,13 +78,7 @@ namespace PLEXIL
    */
   void MessageQueueMap::addMessage(const std::string& message) {
     debugMsg("MessageQueueMap:addMessage", ' ' << this << " entered for \"" << message << "\"");
-    PairingQueue* pq = ensureQueue(message);
-    if (!m_allowDuplicateMessages)
-      while (!pq->m_messageQueue.empty())
-        pq->m_messageQueue.pop();
-    pq->m_messageQueue.emplace(Value(message));
-    updateQueue(pq);
-    debugMsg("MessageQueueMap:addMessage", ' ' << this << " Message \"" << pq->m_name << "\" added");
+    addMessage(message, Value(message));
   }
 
   /**
@@ -90,14 +90,20 @@ namespace PLEXIL
    */
   void MessageQueueMap::addMessage(const std::string& message, const Value& param) {
     debugMsg("MessageQueueMap:addMessage", ' ' << this << " entered for \"" << message << "\"");
-    PairingQueue* pq = ensureQueue(message);
-    if (!m_allowDuplicateMessages)
-      while (!pq->m_messageQueue.empty())
-        pq->m_messageQueue.pop();
-    pq->m_messageQueue.emplace(param);
-    updateQueue(pq);
+    bool paired = false;
+    {
+      std::lock_guard<std::mutex> guard(m_mutex);
+      PairingQueue* pq = ensureQueue(message);
+      if (!m_allowDuplicateMessages)
+        while (!pq->m_messageQueue.empty())
+          pq->m_messageQueue.pop();
+      pq->m_messageQueue.emplace(param);
+      paired = updateQueue(pq);
+    }
+    if (paired)
+      m_execInterface.notifyOfExternalEvent();
     debugMsg("MessageQueueMap:addMessage",
-             ' ' << this << " Message \"" << pq->m_name << "\" added, value = \"" << param << '"');
+             ' ' << this << " Message \"" << message << "\" added, value = \"" << param << '"');
   }
 
   /**
@@ -120,7 +126,6 @@ namespace PLEXIL
   //! @brief Get the PairingQueue for this message, if it exists.
   MessageQueueMap::PairingQueue* MessageQueueMap::getQueue(const std::string& message)
   {
-    std::lock_guard<std::mutex> guard(m_mutex);
     QueueMap::iterator it = m_map.find(message);
     if (m_map.end() != it)
       return it->second.get();
@@ -130,24 +135,19 @@ namespace PLEXIL
   //! @brief Get or construct the PairingQueue for this message.
   MessageQueueMap::PairingQueue * MessageQueueMap::ensureQueue(const std::string& message)
   {
-    PairingQueue* result = nullptr;
-    {
-      std::lock_guard<std::mutex> guard(m_mutex);
-      QueueMap::iterator it = m_map.find(message);
-      if (m_map.end() == it) {
-        it = m_map.emplace(QueueMap::value_type(message,
-                                                std::unique_ptr<PairingQueue>(new PairingQueue(message)))).first;
-      }
-      return it->second.get();
+    QueueMap::iterator it = m_map.find(message);
+    if (m_map.end() == it) {
+      it = m_map.emplace(QueueMap::value_type(message,
+                                              std::unique_ptr<PairingQueue>(new PairingQueue(message)))).first;
+      debugMsg("MessageQueueMap:ensureQueue", " created new queue with name \"" << message << '"');
     }
-    debugMsg("MessageQueueMap:ensureQueue", " created new queue with name \"" << message << '"');
-    return result;
+    return it->second.get();
   }
 
   /**
    * @brief Resolves matches between messages and recipients. Should be called whenever updates occur to a queue.
    */
-  void MessageQueueMap::updateQueue(PairingQueue* queue)
+  bool MessageQueueMap::updateQueue(PairingQueue* queue)
   {
     debugMsg("MessageQueueMap:updateQueue", ' ' << queue->m_name << " entered");
     MessageQueue& mq = queue->m_messageQueue;
@@ -164,8 +164,8 @@ namespace PLEXIL
     }
     if (valChanged) {
       debugMsg("MessageQueueMap:updateQueue", " Message \"" << queue->m_name << "\" paired and sent");
-      m_execInterface.notifyOfExternalEvent();
     }
+    return valChanged;
   }
 
 }
diff --git a/src/interfaces/UdpAdapter/MessageQueueMap.hh b/src/interfaces/UdpAdapter/MessageQueueMap.hh
index d38df4d..e1e74ba 100644
--- a/src/interfaces/UdpAdapter/MessageQueueMap.hh
+++ b/src/interfaces/UdpAdapter/MessageQueueMap.hh
@@ -132,8 +132,10 @@ namespace PLEXIL
 
     /**
      * @brief Resolves matches between messages and recipients. Should be called whenever updates occur to a queue.
+     * @return True if any message was returned to a recipient; the caller
+     *         must then notify the Exec, after releasing the mutex.
      */
-    void updateQueue(PairingQueue* queue);
+    bool updateQueue(PairingQueue* queue);
 
     //* @brief Map holding all message queues
     using QueueMap = std::map<std::string, std::unique_ptr<PairingQueue>>;
-- 
2.43.0


From 04b5f0cf1cdac202c9ae1ac49682e564ed2a2351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:39 +0000
Subject: [PATCH 050/110] fix: MessageQueueMap drops older duplicates when
 duplicates are no longer allowed

---
 src/interfaces/UdpAdapter/MessageQueueMap.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/interfaces/UdpAdapter/MessageQueueMap.cc b/src/interfaces/UdpAdapter/MessageQueueMap.cc
index 48fca4b..a4d5bb5 100644
--- a/src/interfaces/UdpAdapter/MessageQueueMap.cc
+++ b/src/interfaces/UdpAdapter/MessageQueueMap.cc
@@ -120,7 +120,12 @@ namespace PLEXIL
    */
   void MessageQueueMap::setAllowDuplicateMessages(bool flag) {
     debugMsg("MessageQueueMap:setAllowDuplicateMessages", ' ' << this << " to " << flag);
+    std::lock_guard<std::mutex> guard(m_mutex);
     m_allowDuplicateMessages = flag;
+    if (!flag)
+      for (QueueMap::value_type &entry : m_map)
+        while (entry.second->m_messageQueue.size() > 1)
+          entry.second->m_messageQueue.pop();
   }
 
   //! @brief Get the PairingQueue for this message, if it exists.
-- 
2.43.0


From 21425aef3029849f05cc65ea63855afb848eeb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:39 +0000
Subject: [PATCH 051/110] fix: UdpAdapter opens only one listener for a
 message, however often it is received

---
 src/interfaces/UdpAdapter/UdpAdapter.cc   | 11 +++++++++++
 src/interfaces/UdpAdapter/UdpEventLoop.cc | 16 ++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/interfaces/UdpAdapter/UdpAdapter.cc b/src/interfaces/UdpAdapter/UdpAdapter.cc
index 32f0824..b27adc9 100644
--- a/src/interfaces/UdpAdapter/UdpAdapter.cc
+++ b/src/interfaces/UdpAdapter/UdpAdapter.cc
@@ -57,6 +57,7 @@
 
 #include <memory> // std::unique_ptr, std::make_unique
 #include <mutex>
+#include <set>
 #include <thread>
 
 #include <cerrno>
@@ -229,6 +230,7 @@ namespace PLEXIL
       debugMsg("UdpAdapter:stop", " called");
       // Stop the UDP listener thread
       m_eventLoop->stop();
+      m_listening.clear();
     }
 
   private:
@@ -560,6 +562,7 @@ namespace PLEXIL
         return;
       }
       m_eventLoop->closeListener(msg.local_port);
+      m_listening.erase(msgName);
 
       debugMsg("UdpAdapter:abortCommand", " ReceiveCommand(\"" << msgName << "\") complete");
 
@@ -791,6 +794,12 @@ namespace PLEXIL
       UdpMessage &msg = msgIt->second;
 
       // Check for a bogus local port
+      if (m_listening.find(name) != m_listening.end()) {
+        debugMsg("UdpAdapter:startUdpMessageReceiver",
+                 " already listening for " << name);
+        return 0;
+      }
+
       if (msg.local_port == 0) {
         warn("startUdpMessageReceiver: bad local port (0) given for " << name << " message");
         return -1;
@@ -810,6 +819,7 @@ namespace PLEXIL
         warn("UdpAdapter:startUdpMessageReceiver: openListener() failed for " << name);
         return -1;
       }
+      m_listening.insert(name);
       debugMsg("UdpAdapter:startUdpMessageReceiver",
                  " " << name << " listener started");
       return 0;
@@ -1343,6 +1353,7 @@ namespace PLEXIL
     // Somewhere to hang the messages, default ports and peers, threads and sockets
     std::string m_default_peer;
     MessageMap m_messages;
+    std::set<std::string> m_listening; // names of messages which have listeners
     MessageQueueMap m_messageQueues;
     unsigned int m_default_local_port;
     unsigned int m_default_peer_port;
diff --git a/src/interfaces/UdpAdapter/UdpEventLoop.cc b/src/interfaces/UdpAdapter/UdpEventLoop.cc
index d91d0ef..4efba5d 100644
--- a/src/interfaces/UdpAdapter/UdpEventLoop.cc
+++ b/src/interfaces/UdpAdapter/UdpEventLoop.cc
@@ -199,6 +199,14 @@ namespace PLEXIL
         return false;
       }
 
+      {
+        std::lock_guard<std::mutex> guard(m_listenerMutex);
+        if (m_listeners.find(port) != m_listeners.end()) {
+          warn("UdpEventLoop::openListener: already listening on port " << port);
+          return false;
+        }
+      }
+
       // Create a socket and bind it to the port
       int fd = openAndBindUdpSocket(port);
       if (fd < 0) {
@@ -243,6 +251,14 @@ namespace PLEXIL
         return;
       }
 
+      {
+        std::lock_guard<std::mutex> guard(m_listenerMutex);
+        if (m_listeners.find(port) == m_listeners.end()) {
+          debugMsg("UdpEventLoop:closeListener", " not listening on port " << port << ", ignored");
+          return;
+        }
+      }
+
       if (m_eventThread.joinable()) {
         ControlMsg removeMsg = {OP_REMOVE, port};
         ssize_t nbytes = write(m_pipeFDs[1], &removeMsg, sizeof(ControlMsg));
-- 
2.43.0


From fe369875e191cd38c02eb8bfba8d45b9cc77b55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:51 +0000
Subject: [PATCH 052/110] fix: a ReceiveCommand which failed or was aborted no
 longer takes messages from the others

---
 src/interfaces/UdpAdapter/MessageQueueMap.cc | 22 ++++++++++++++++++++
 src/interfaces/UdpAdapter/MessageQueueMap.hh |  8 +++++++
 src/interfaces/UdpAdapter/UdpAdapter.cc      |  9 +++++---
 3 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/interfaces/UdpAdapter/MessageQueueMap.cc b/src/interfaces/UdpAdapter/MessageQueueMap.cc
index a4d5bb5..f8598b9 100644
--- a/src/interfaces/UdpAdapter/MessageQueueMap.cc
+++ b/src/interfaces/UdpAdapter/MessageQueueMap.cc
@@ -71,6 +71,28 @@ namespace PLEXIL
     debugMsg("MessageQueueMap:addRecipient", ' ' << this << " added for message \"" << message << '"');
   }
 
+  /**
+   * @brief Removes the given recipient from the queue for the given message,
+   * so that it will not be handed any message.
+   * @param message The message the recipient was waiting for
+   * @param cmd The command instance
+   * @return The number of recipients still waiting for the message.
+   */
+  size_t MessageQueueMap::removeRecipient(const std::string& message, Command *cmd) {
+    std::lock_guard<std::mutex> guard(m_mutex);
+    PairingQueue* que = getQueue(message);
+    if (!que)
+      return 0;
+    RecipientQueue remaining;
+    while (!que->m_recipientQueue.empty()) {
+      if (que->m_recipientQueue.front() != cmd)
+        remaining.push(que->m_recipientQueue.front());
+      que->m_recipientQueue.pop();
+    }
+    que->m_recipientQueue.swap(remaining);
+    return que->m_recipientQueue.size();
+  }
+
   /**
    * @brief Adds the given message to its queue. If there is a recipient waiting for the message, it is sent immediately.
    * @param message The message string to be added
diff --git a/src/interfaces/UdpAdapter/MessageQueueMap.hh b/src/interfaces/UdpAdapter/MessageQueueMap.hh
index e1e74ba..d72097d 100644
--- a/src/interfaces/UdpAdapter/MessageQueueMap.hh
+++ b/src/interfaces/UdpAdapter/MessageQueueMap.hh
@@ -61,6 +61,14 @@ namespace PLEXIL
      */
     void addRecipient(const std::string &message, Command *cmd);
 
+    /**
+     * @brief Removes the given recipient from the queue for the given message.
+     * @param message The message the recipient was waiting for.
+     * @param cmd Pointer to the command requesting the message.
+     * @return The number of recipients still waiting for the message.
+     */
+    size_t removeRecipient(const std::string &message, Command *cmd);
+
     /**
      * @brief Adds the given message to its queue. If there is a recipient
      * waiting for the message, it is sent immediately.
diff --git a/src/interfaces/UdpAdapter/UdpAdapter.cc b/src/interfaces/UdpAdapter/UdpAdapter.cc
index b27adc9..deabd7b 100644
--- a/src/interfaces/UdpAdapter/UdpAdapter.cc
+++ b/src/interfaces/UdpAdapter/UdpAdapter.cc
@@ -318,7 +318,6 @@ namespace PLEXIL
 
       debugMsg("UdpAdapter:executeReceiveCommandCommand", " called for " << msgName);
       std::string command = formatMessageName(msgName, RECEIVE_COMMAND_COMMAND);
-      m_messageQueues.addRecipient(command, cmd);
       // Set up the thread on which the message may/will eventually be received
       int status = startUdpMessageReceiver(msgName, cmd);
       if (status) {
@@ -326,6 +325,7 @@ namespace PLEXIL
         intf->handleCommandAck(cmd, COMMAND_FAILED);
       }
       else {
+        m_messageQueues.addRecipient(command, cmd);
         debugMsg("UdpAdapter:executeReceiveCommandCommand",
                  " message handler for \"" << command << "\" registered");
         intf->handleCommandAck(cmd, COMMAND_SENT_TO_SYSTEM);
@@ -561,8 +561,11 @@ namespace PLEXIL
         abortCommand(cmd, intf, false);
         return;
       }
-      m_eventLoop->closeListener(msg.local_port);
-      m_listening.erase(msgName);
+      // Stop listening when nobody is waiting for the message any more
+      if (!m_messageQueues.removeRecipient(formatMessageName(msgName, RECEIVE_COMMAND_COMMAND), cmd)) {
+        m_eventLoop->closeListener(msg.local_port);
+        m_listening.erase(msgName);
+      }
 
       debugMsg("UdpAdapter:abortCommand", " ReceiveCommand(\"" << msgName << "\") complete");
 
-- 
2.43.0


From 98deef8fddf6c09e749b47d88471ef24d9100396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:51 +0000
Subject: [PATCH 053/110] fix: a UdpEventLoop which was stopped can be started
 again

---
 src/interfaces/UdpAdapter/UdpEventLoop.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/interfaces/UdpAdapter/UdpEventLoop.cc b/src/interfaces/UdpAdapter/UdpEventLoop.cc
index 4efba5d..b61ead6 100644
--- a/src/interfaces/UdpAdapter/UdpEventLoop.cc
+++ b/src/interfaces/UdpAdapter/UdpEventLoop.cc
@@ -344,6 +344,10 @@ namespace PLEXIL
           m_eventThread.join();
       }
 
+      // The event thread has closed the other end
+      m_pipeFDs[0] = 0;
+      m_pipeFDs[1] = 0;
+
       // Close any remaining open sockets
       for (ListenerMap::value_type const &pr : m_listeners) {
         if (close(pr.second->socketFD)) {
-- 
2.43.0


From 148a80b04ae3c9b86087354cd680ce3dc2009671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:36 +0000
Subject: [PATCH 054/110] fix: an Integer LookupOnChange notices that its value
 is known again

---
 src/intfc/Lookup.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index d76dfc6..32d6328 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -663,10 +663,14 @@ namespace PLEXIL
   bool ThresholdCacheImpl<Integer>::thresholdsExceeded(CachedValue const *value) const
   {
     Integer currentValue;
-    if (value->getValue(currentValue))
-      return (currentValue >= m_high) || (currentValue <= m_low);
-    // Current value is unknown
-    return m_wasKnown; 
+    if (!(value->getValue(currentValue)))
+      // now unknown, was it last time?
+      return m_wasKnown;
+
+    if (!m_wasKnown)
+      return true; // was unknown
+
+    return (currentValue >= m_high) || (currentValue <= m_low);
   }
 
   //! \brief Check whether the current value is beyond the thresholds
-- 
2.43.0


From b1e31cd8996d11e55cccb510333dd30935a16d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:36 +0000
Subject: [PATCH 055/110] fix: thresholds of a LookupOnChange don't overflow

---
 src/intfc/Lookup.cc | 59 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 10 deletions(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 32d6328..a165e74 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -36,6 +36,8 @@
 #include "ValueType.hh"
 
 #include <cmath>  // fabs()
+#include <cstdint>
+#include <limits>
 #include <memory>
 
 namespace PLEXIL
@@ -565,6 +567,37 @@ namespace PLEXIL
 
   };
 
+  //! \struct ThresholdType
+  //! \brief The type in which thresholds are calculated.  Wide enough
+  //!        to represent the sum or difference of any two values.
+  template <typename NUM>
+  struct ThresholdType
+  {
+    using type = NUM;
+  };
+
+  template <>
+  struct ThresholdType<Integer>
+  {
+    using type = int64_t;
+  };
+
+  //! \brief Return the value nearest to the threshold.
+  static void convertThreshold(int64_t threshold, Integer &result)
+  {
+    if (threshold > std::numeric_limits<Integer>::max())
+      result = std::numeric_limits<Integer>::max();
+    else if (threshold < std::numeric_limits<Integer>::min())
+      result = std::numeric_limits<Integer>::min();
+    else
+      result = static_cast<Integer>(threshold);
+  }
+
+  static void convertThreshold(Real threshold, Real &result)
+  {
+    result = threshold;
+  }
+
   //! \class ThresholdCacheImpl
   //! \brief Implementation class for Lookup threshold caching,
   //!        templated by value type of the threshold.
@@ -572,6 +605,10 @@ namespace PLEXIL
   template <typename NUM>
   class ThresholdCacheImpl : public ThresholdCache
   {
+  private:
+
+    using Threshold = typename ThresholdType<NUM>::type;
+
   public:
 
     //! \brief Default constructor.
@@ -590,8 +627,9 @@ namespace PLEXIL
     virtual bool toleranceChanged(Expression const *tolerance) const override
     {
       check_error_1(tolerance); // paranoid check
-      NUM newTol;
-      if (tolerance->getValue(newTol)) {
+      NUM tol;
+      if (tolerance->getValue(tol)) {
+        Threshold newTol = tol;
         if (newTol < 0)
           newTol = -newTol;
         debugMsg("ThresholdCache:toleranceChanged",
@@ -599,7 +637,6 @@ namespace PLEXIL
         return newTol != m_tolerance;
       }
       // Tolerance is unknown, default to 0
-      newTol = 0;
       debugMsg("ThresholdCache:toleranceChanged",
                " tolerance is unknown, returning " << true);
       return true;
@@ -618,8 +655,10 @@ namespace PLEXIL
     {
       debugMsg("ThresholdCache:setThresholds", " entered");
       check_error_1(value); // paranoid check
-      NUM base, tol;
-      if (tolerance->getValue(tol)) {
+      NUM base, tolValue;
+      Threshold tol;
+      if (tolerance->getValue(tolValue)) {
+        tol = tolValue;
         if (tol < 0)
           tol = -tol;
         debugMsg("ThresholdCache:setThresholds", " tolerance is " << tol);
@@ -644,14 +683,14 @@ namespace PLEXIL
 
     virtual void getThresholds(NUM &high, NUM &low) const override
     {
-      high = m_high;
-      low = m_low;
+      convertThreshold(m_high, high);
+      convertThreshold(m_low, low);
     }
 
   private:
-    NUM m_low;
-    NUM m_high;
-    NUM m_tolerance;
+    Threshold m_low;
+    Threshold m_high;
+    Threshold m_tolerance;
     bool m_wasKnown;
   };
 
-- 
2.43.0


From 8348c2253ed2d9baa3f38afcdfcedbf9d9eb31f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:37 +0000
Subject: [PATCH 056/110] fix: a LookupOnChange of an unknown value has no
 thresholds

---
 src/intfc/Lookup.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index a165e74..316939d 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -542,6 +542,10 @@ namespace PLEXIL
     //! \return True if exceeded, false otherwise.
     virtual bool thresholdsExceeded(CachedValue const *value) const = 0;
 
+    //! \brief Are there any thresholds?
+    //! \return False if the value was unknown when last reported.
+    virtual bool hasThresholds() const = 0;
+
     //! \brief Set the thresholds based on the given cached value.
     //! \param value Pointer to the state cache entry.
     //! \param tolerance Pointer to the tolerance expression.
@@ -681,6 +685,11 @@ namespace PLEXIL
       }
     }
 
+    virtual bool hasThresholds() const override
+    {
+      return m_wasKnown;
+    }
+
     virtual void getThresholds(NUM &high, NUM &low) const override
     {
       convertThreshold(m_high, high);
@@ -865,7 +874,7 @@ namespace PLEXIL
                  ' ' << m_cachedState << ": not active, returning false");
         return false;
       }
-      if (!m_thresholds) {
+      if (!m_thresholds || !m_thresholds->hasThresholds()) {
         debugMsg("LookupOnChange:getThresholds",
                  ' ' << m_cachedState << ": no thresholds, returning false");
         return false;
@@ -886,7 +895,7 @@ namespace PLEXIL
                  ' ' << m_cachedState << ": not active, returning false");
         return false;
       }
-      if (!m_thresholds) {
+      if (!m_thresholds || !m_thresholds->hasThresholds()) {
         debugMsg("LookupOnChange:getThresholds",
                  ' ' << m_cachedState << ": no thresholds, returning false");
         return false;
-- 
2.43.0


From fcbbc1e93efe4af1d6166bb5a38c24dbb1f5dad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:37 +0000
Subject: [PATCH 057/110] fix: the interface is told of the thresholds of a new
 tolerance

---
 src/intfc/Lookup.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 316939d..e4a2e71 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -1062,7 +1062,8 @@ namespace PLEXIL
         // m_cachedState, m_entry, and m_cachedValue are valid.
         if (m_tolerance->isKnown()) {
           // Check whether the thresholds have changed
-          if (m_thresholds->toleranceChanged(m_tolerance)) {
+          bool newTolerance = m_thresholds->toleranceChanged(m_tolerance);
+          if (newTolerance) {
             debugMsg("LookupOnChange:update",
                      ' ' << this->m_cachedState
                      << " tolerance changed, updating thresholds");
@@ -1082,6 +1083,8 @@ namespace PLEXIL
             m_entry->updateThresholds(m_cachedState);
             return true;
           }
+          if (newTolerance)
+            m_entry->updateThresholds(m_cachedState);
           debugMsg("LookupOnChange:update",
                    ' ' << this->m_cachedState << " value changed but within tolerances");
           return false; // value or threshold updated, but value within tolerances
-- 
2.43.0


From fb5362fc7d5aed0a1453898aaf24bb9ebbe8b5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:37 +0000
Subject: [PATCH 058/110] fix: thresholds are withdrawn with the last lookup of
 a state

---
 src/intfc/StateCacheEntry.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/intfc/StateCacheEntry.cc b/src/intfc/StateCacheEntry.cc
index 215bb8f..b463a4a 100644
--- a/src/intfc/StateCacheEntry.cc
+++ b/src/intfc/StateCacheEntry.cc
@@ -133,6 +133,8 @@ namespace PLEXIL
         if (m_lowThreshold || m_highThreshold) {
           m_lowThreshold.reset();
           m_highThreshold.reset();
+          if (g_dispatcher)
+            g_dispatcher->clearThresholds(state);
         }
       }
       else if (m_lowThreshold || m_highThreshold) {
-- 
2.43.0


From 6e5d30ec6effb502aa6325ee16131dce712c5493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:37 +0000
Subject: [PATCH 059/110] fix: a tolerance is ignored when the value isn't a
 number

---
 src/intfc/Lookup.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index e4a2e71..8dfd46a 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -1103,7 +1103,9 @@ namespace PLEXIL
           return valueChanged; // ??
         }
       }
-      else if (this->m_entry && this->m_entry->isKnown() && m_tolerance->isKnown()) {
+      else if (this->m_entry && this->m_entry->isKnown() && m_tolerance->isKnown()
+               // A tolerance is meaningless for any other type
+               && isNumericType(this->m_entry->valueType())) {
         // State, lookup value, and tolerance are all known,
         // but no thresholds have been set yet.
         // Cache current value and establish them.
-- 
2.43.0


From 2c51f1a898f7be386e8829069f44bf4cab99e287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:11 +0000
Subject: [PATCH 060/110] fix: lookups with thresholds may be deleted after the
 application

---
 src/intfc/StateCacheEntry.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/intfc/StateCacheEntry.cc b/src/intfc/StateCacheEntry.cc
index b463a4a..0621f41 100644
--- a/src/intfc/StateCacheEntry.cc
+++ b/src/intfc/StateCacheEntry.cc
@@ -464,13 +464,15 @@ namespace PLEXIL
         }
         m_lowThreshold->update(timestamp, ilo);
         m_highThreshold->update(timestamp, ihi);
-        g_dispatcher->setThresholds(state, ihi, ilo);
+        if (g_dispatcher)
+          g_dispatcher->setThresholds(state, ihi, ilo);
       }
       else if (m_lowThreshold) {
         // Had thresholds, but they're no longer in effect
         m_lowThreshold->setUnknown(timestamp);
         m_highThreshold->setUnknown(timestamp);
-        g_dispatcher->clearThresholds(state);
+        if (g_dispatcher)
+          g_dispatcher->clearThresholds(state);
       }
       return hasThresholds;
     }
@@ -510,13 +512,15 @@ namespace PLEXIL
         }
         m_lowThreshold->update(timestamp, rlo);
         m_highThreshold->update(timestamp, rhi);
-        g_dispatcher->setThresholds(state, rhi, rlo);
+        if (g_dispatcher)
+          g_dispatcher->setThresholds(state, rhi, rlo);
       }
       else if (m_lowThreshold) {
         // Had thresholds, but they're no longer in effect
         m_lowThreshold->setUnknown(timestamp);
         m_highThreshold->setUnknown(timestamp);
-        g_dispatcher->clearThresholds(state);
+        if (g_dispatcher)
+          g_dispatcher->clearThresholds(state);
       }
       return hasThresholds;
     }
-- 
2.43.0


From b0e18f67272cf9d7e8c489f09e56615d9efb71d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:29 +0000
Subject: [PATCH 061/110] fix: listeners are told when a LookupOnChange loses
 its tolerance

---
 src/intfc/Lookup.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 8dfd46a..cb0e4c5 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -1100,7 +1100,8 @@ namespace PLEXIL
           m_cachedValue.reset();
           // Tell the cache entry about it
           m_entry->updateThresholds(m_cachedState);
-          return valueChanged; // ??
+          // The current value may differ from the last reported
+          return true;
         }
       }
       else if (this->m_entry && this->m_entry->isKnown() && m_tolerance->isKnown()
-- 
2.43.0


From f2c92677cfe19037e7c1b56d57057536a706e164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:37 +0000
Subject: [PATCH 062/110] fix: the queue entry of an accepted message carries
 its handle

---
 src/intfc/QueueEntry.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/intfc/QueueEntry.cc b/src/intfc/QueueEntry.cc
index 74965ae..f6b0ab8 100644
--- a/src/intfc/QueueEntry.cc
+++ b/src/intfc/QueueEntry.cc
@@ -127,6 +127,7 @@ namespace PLEXIL
   void QueueEntry::initForAcceptMessage(Message *msg, std::string const &handle)
   {
     message = msg;
+    value = handle;
     type = Q_ACCEPT_MSG;
   }
 
-- 
2.43.0


From 14eded63031e378e3bcbe20a4908c997e528cf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:37 +0000
Subject: [PATCH 063/110] fix: flushing a SerializedInputQueue doesn't deadlock

---
 src/app-framework/SerializedInputQueue.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/app-framework/SerializedInputQueue.cc b/src/app-framework/SerializedInputQueue.cc
index 239a8a6..f22aa4b 100644
--- a/src/app-framework/SerializedInputQueue.cc
+++ b/src/app-framework/SerializedInputQueue.cc
@@ -131,7 +131,10 @@ namespace PLEXIL
     QueueEntry *temp;
     while ((temp = m_queueGet)) {
       m_queueGet = temp->next;
-      release(temp);
+      // Can't call release() while holding the mutex
+      temp->reset();
+      temp->next = m_freeList;
+      m_freeList = temp;
     }
     m_queuePut = nullptr;
   }
-- 
2.43.0


From 2c163ad53b5bdf55ff0a7fafb26083978af9e8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:37 +0000
Subject: [PATCH 064/110] fix: input queues free the contents of their pending
 entries

---
 src/app-framework/SerializedInputQueue.cc | 1 +
 src/app-framework/SimpleInputQueue.cc     | 1 +
 src/intfc/QueueEntry.cc                   | 4 ++++
 3 files changed, 6 insertions(+)

diff --git a/src/app-framework/SerializedInputQueue.cc b/src/app-framework/SerializedInputQueue.cc
index f22aa4b..fae51e7 100644
--- a/src/app-framework/SerializedInputQueue.cc
+++ b/src/app-framework/SerializedInputQueue.cc
@@ -52,6 +52,7 @@ namespace PLEXIL
     while (m_queueGet) {
       QueueEntry *temp = m_queueGet;
       m_queueGet = temp->next;
+      temp->reset(); // frees whatever it owns
       delete temp;
     }
     while (m_freeList) {
diff --git a/src/app-framework/SimpleInputQueue.cc b/src/app-framework/SimpleInputQueue.cc
index 4a75f6e..89ac752 100644
--- a/src/app-framework/SimpleInputQueue.cc
+++ b/src/app-framework/SimpleInputQueue.cc
@@ -45,6 +45,7 @@ namespace PLEXIL
     while (m_queueGet) {
       QueueEntry *temp = m_queueGet;
       m_queueGet = temp->next;
+      temp->reset(); // frees whatever it owns
       delete temp;
     }
     while (m_freeList) {
diff --git a/src/intfc/QueueEntry.cc b/src/intfc/QueueEntry.cc
index f6b0ab8..0cb3ec2 100644
--- a/src/intfc/QueueEntry.cc
+++ b/src/intfc/QueueEntry.cc
@@ -26,6 +26,8 @@
 
 #include "QueueEntry.hh"
 
+#include "Message.hh"
+
 #include "State.hh"
 
 namespace PLEXIL
@@ -44,6 +46,8 @@ namespace PLEXIL
     next = nullptr;
     if (type == Q_LOOKUP)
       delete state;
+    else if (type == Q_ACCEPT_MSG)
+      delete message; // null once it has been handed over
     state = nullptr;
     value.setUnknown();
     type = Q_UNINITED;
-- 
2.43.0


From 3eac2f96d96eb4a2fac485e468226224176f273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:37 +0000
Subject: [PATCH 065/110] fix: malformed message commands are answered once,
 without reading parameters they don't have

---
 src/app-framework/MessageAdapter.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/app-framework/MessageAdapter.cc b/src/app-framework/MessageAdapter.cc
index a986f28..639127d 100644
--- a/src/app-framework/MessageAdapter.cc
+++ b/src/app-framework/MessageAdapter.cc
@@ -201,17 +201,20 @@ namespace PLEXIL
           warn("ReleaseMessageHandle command requires exactly one argument");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (command.parameterType(0) != STRING_TYPE) {
           // report arg-type error
           warn("ReleaseMessageHandle command: first argument must be a String");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (!command.parameter(0).isKnown()) {
           // do nothing, but report success
           intf->handleCommandAck(cmd, COMMAND_SUCCESS);
           intf->notifyOfExternalEvent();
+          return;
         }
 
         // All good? Hand it off for implementation.
@@ -229,18 +232,21 @@ namespace PLEXIL
           warn("PublishMessage command requires exactly one argument");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (command.parameterType(0) != STRING_TYPE) {
           // report arg-type error
           warn("PublishMessage command: first argument must be a String");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (!command.parameter(0).isKnown()) {
           // report arg-unknown error
           warn("PublishMessage command: first argument, message, is unknown");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
 
         // Then hand it off for implementation
@@ -253,35 +259,40 @@ namespace PLEXIL
         // Check that there are at least two parameters and that they are strings
         // Check that there is at least one parameter and that it is a string
         State const &command = cmd->getCommand();
-        if (command.parameterCount() < 1) {
+        if (command.parameterCount() < 2) {
           // report arg-count error
           warn("SendMessage command requires at least two arguments");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (command.parameterType(0) != STRING_TYPE) {
           // report arg-type error
           warn("SendMessage command: first argument, recipient, must be a String");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (!command.parameter(0).isKnown()) {
           // report arg-unknown error
           warn("SendMessage command: first argument, recipient, is unknown");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (command.parameterType(1) != STRING_TYPE) {
           // report arg-type error
           warn("SendMessage command: second argument, message, must be a String");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (!command.parameter(1).isKnown()) {
           // report arg-unknown error
           warn("SendMessage command: second argument, message, is unknown");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
 
         // Then hand it off for implementation
-- 
2.43.0


From 0b10ced89e4dc5696c8dc929076eaccb03b9e28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:37 +0000
Subject: [PATCH 066/110] fix: each accepted message has a handle of its own

---
 src/app-framework/MessageAdapter.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/app-framework/MessageAdapter.cc b/src/app-framework/MessageAdapter.cc
index 639127d..0feffe9 100644
--- a/src/app-framework/MessageAdapter.cc
+++ b/src/app-framework/MessageAdapter.cc
@@ -40,7 +40,9 @@
 #include "MessageAdapter.hh"
 #include "Timebase.hh"
 
+#include <atomic>
 #include <queue>
+#include <string>
 
 namespace PLEXIL
 {
@@ -128,8 +130,8 @@ namespace PLEXIL
       }
       else {
         // Generate a handle
-        std::string handle;
-        // TODO - generate UID?
+        static std::atomic<unsigned int> sl_handleCount(0);
+        std::string const handle = "message_" + std::to_string(++sl_handleCount);
         intf->notifyMessageAccepted(m_queue.front(), handle);
         m_queue.pop();
         intf->handleCommandReturn(cmd, Value(handle));
-- 
2.43.0


From 9e845e251458a1adb73669de3aae9272df1841b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:37 +0000
Subject: [PATCH 067/110] fix: the message queue may be used by several threads

---
 src/app-framework/MessageAdapter.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/app-framework/MessageAdapter.cc b/src/app-framework/MessageAdapter.cc
index 0feffe9..fac94db 100644
--- a/src/app-framework/MessageAdapter.cc
+++ b/src/app-framework/MessageAdapter.cc
@@ -29,6 +29,8 @@
 // from external agents.
 //
 
+#include "plexil-config.h"
+
 #include "AdapterConfiguration.hh"
 #include "AdapterExecInterface.hh"
 #include "AdapterFactory.hh"
@@ -41,6 +43,9 @@
 #include "Timebase.hh"
 
 #include <atomic>
+#ifdef PLEXIL_WITH_THREADS
+#include <mutex>
+#endif
 #include <queue>
 #include <string>
 
@@ -124,6 +129,10 @@ namespace PLEXIL
     //! Pop the message at the head of the queue and send it to the Exec.
     void acceptMessage(Command *cmd, AdapterExecInterface *intf)
     {
+#ifdef PLEXIL_WITH_THREADS
+      // Messages may arrive in any thread.
+      std::lock_guard<std::mutex> guard(m_mutex);
+#endif
       if (m_queue.empty()) {
         // Empty queue -> handle unknown
         intf->handleCommandReturn(cmd, Value());
@@ -308,6 +317,9 @@ namespace PLEXIL
     // Do we need a move variant?
     void enqueueMessage(State const &state, std::string const &sender, double timestamp)
     {
+#ifdef PLEXIL_WITH_THREADS
+      std::lock_guard<std::mutex> guard(m_mutex);
+#endif
       // check if started?
       bool wasEmpty = m_queue.empty();
       m_queue.push(new Message(state, sender, timestamp));
@@ -326,6 +338,9 @@ namespace PLEXIL
     using MessageQueue = std::queue<Message *>;
 
     MessageQueue m_queue;
+#ifdef PLEXIL_WITH_THREADS
+    std::mutex m_mutex;
+#endif
   }; // class MessageAdapterImpl
 
 } // namespace PLEXIL
-- 
2.43.0


From 186b6b8e294e018e2194ed138f0c59c0fae9986c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:37 +0000
Subject: [PATCH 068/110] fix: a message handle is unknown once released, even
 while it is looked up

---
 src/intfc/StateCache.cc | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/intfc/StateCache.cc b/src/intfc/StateCache.cc
index d0c8780..986a46b 100644
--- a/src/intfc/StateCache.cc
+++ b/src/intfc/StateCache.cc
@@ -178,28 +178,21 @@ namespace PLEXIL
     {
       // Need the parameter count to delete all the parameters
       Value handleValue(handle);
-      EntryMap::iterator iter = m_map.find(State("MessageParameterCount", handleValue));
+      State const countState("MessageParameterCount", handleValue);
+      EntryMap::iterator iter = m_map.find(countState);
       if (iter == m_map.end())
         return; // not there, therefore already deleted or never existed
 
       Integer count;
-      if (!iter->second->cachedValue()->getValue(count)) {
-        // warn of internal error (NYI)
-        return;
-      }
-      
-      if (iter->second->hasRegisteredLookups()) {
-        // BIG OOPS - can't delete these w/o leaving dangling pointers
-        // warn (NYI)
-        return;
-      }
+      if (!iter->second->cachedValue() || !iter->second->cachedValue()->getValue(count))
+        return; // already released
 
-      m_map.erase(iter);
       for (Integer i = 0; i < count; ++i) {
         deleteStateCacheEntry(State("MessageParameter",
                                     handleValue,
                                     Value(i)));
       }
+      deleteStateCacheEntry(countState);
       deleteStateCacheEntry(State("MessageText", handleValue));
       deleteStateCacheEntry(State("MessageSender", handleValue));
       deleteStateCacheEntry(State("MessageArrived", handleValue));
@@ -234,7 +227,8 @@ namespace PLEXIL
       if (iter == m_map.end())
         return; // already deleted or never there
       if (iter->second->hasRegisteredLookups()) {
-        // warn (NYI) and bail out
+        // Can't delete it without leaving dangling pointers
+        iter->second->setUnknown();
         return;
       }
       m_map.erase(iter);
-- 
2.43.0


From 4e78ac9db8d5845776c14cbff76eb089ec663cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:37 +0000
Subject: [PATCH 069/110] fix: an inactive lookup doesn't refer to a state
 cache entry which may be deleted

---
 src/intfc/Lookup.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index cb0e4c5..b2746f5 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -401,9 +401,8 @@ namespace PLEXIL
       if (m_stateKnown)
         unregister();
 
-      // Preserve cache entry if state is known constant
-      if (!m_stateIsConstant)
-        m_entry = nullptr;
+      // The entry may be deleted while no lookup is registered on it
+      m_entry = nullptr;
     }
 
     //
-- 
2.43.0


From d459faf7a9b14bf516a0c298ea167f132f32c048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:38 +0000
Subject: [PATCH 070/110] fix: addLibrary reports failure

---
 src/app-framework/ExecApplication.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index d35c18c..05415ff 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -752,14 +752,16 @@ namespace PLEXIL
     virtual bool addLibrary(pugi::xml_document* libraryXml) override
     {
       // Delegate to InterfaceManager
-      if (m_manager->handleAddLibrary(libraryXml)) {
-        debugMsg("ExecApplication:addLibrary", " Library added");
-        return true;
+      bool result = false;
+      try {
+        result = m_manager->handleAddLibrary(libraryXml);
       }
-      else {
-        debugMsg("ExecApplication:addLibrary", " failed");
-        return true;
+      catch (const ParserException& e) {
+        warn("addLibrary: Error:\n" << e.what());
+        return false;
       }
+      debugMsg("ExecApplication:addLibrary", (result ? " Library added" : " failed"));
+      return result;
     }
 
     /**
-- 
2.43.0


From 30020326ab8f251e124143f38ed7765e97030eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:39 +0000
Subject: [PATCH 071/110] fix: interface errors in threshold and update
 handlers are contained, like those in other handlers

---
 src/app-framework/AdapterConfiguration.cc | 30 ++++++++++++++++++++---
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/app-framework/AdapterConfiguration.cc b/src/app-framework/AdapterConfiguration.cc
index 5d00cca..40add62 100644
--- a/src/app-framework/AdapterConfiguration.cc
+++ b/src/app-framework/AdapterConfiguration.cc
@@ -501,13 +501,23 @@ namespace PLEXIL {
     virtual void setThresholds(const State& state, Real hi, Real lo)
     {
       debugMsg("AdapterConfiguration:setThresholds", " (Real) state " << state);
-      getLookupHandler(state.name())->setThresholds(state, hi, lo);
+      try {
+        getLookupHandler(state.name())->setThresholds(state, hi, lo);
+      }
+      catch (InterfaceError const &e) {
+        warn("Error setting thresholds of " << state << ":\n" << e.what());
+      }
     }
 
     virtual void setThresholds(const State& state, Integer hi, Integer lo)
     {
       debugMsg("AdapterConfiguration:setThresholds", " (Integer) state " << state);
-      getLookupHandler(state.name())->setThresholds(state, hi, lo);
+      try {
+        getLookupHandler(state.name())->setThresholds(state, hi, lo);
+      }
+      catch (InterfaceError const &e) {
+        warn("Error setting thresholds of " << state << ":\n" << e.what());
+      }
     }
 
     //! Tell the interface that thresholds are no longer in effect
@@ -516,7 +526,12 @@ namespace PLEXIL {
     virtual void clearThresholds(const State& state)
     {
       debugMsg("AdapterConfiguration:clearThresholds", " for state " << state);
-      getLookupHandler(state.name())->clearThresholds(state);
+      try {
+        getLookupHandler(state.name())->clearThresholds(state);
+      }
+      catch (InterfaceError const &e) {
+        warn("Error clearing thresholds of " << state << ":\n" << e.what());
+      }
     }
 
     //! Execute a command.
@@ -574,7 +589,14 @@ namespace PLEXIL {
       debugMsg("AdapterConfiguration:updatePlanner",
                " sending planner update for node "
                << update->getNodeId());
-      (handler)(update, m_manager);
+      try {
+        (handler)(update, m_manager);
+      }
+      catch (InterfaceError const &e) {
+        warn("executeUpdate: Error sending update for node " << update->getNodeId()
+             << ":\n" << e.what());
+        update->acknowledge(false);
+      }
     }
 
   private:
-- 
2.43.0


From 4de9d2a069bc6684847b7aa8dc81856317d7e3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:53 +0000
Subject: [PATCH 072/110] fix: queue marks are processed in the order of their
 numbers

---
 src/app-framework/ExecApplication.cc  |  3 ++-
 src/app-framework/InterfaceManager.cc |  4 ++++
 src/app-framework/InterfaceManager.hh | 10 ++++++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index 05415ff..913343e 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -55,6 +55,7 @@
 #include <unistd.h> // sleep()
 #endif
 
+#include <atomic>
 #include <exception>
 #include <mutex>
 #include <thread>
@@ -221,7 +222,7 @@ namespace PLEXIL
     ThreadSemaphore m_allFinishedSem;
 
     //! Last mark seen
-    unsigned int m_lastMark;
+    std::atomic<unsigned int> m_lastMark;
 #endif 
 
     //! Interfacing database and dispatcher
diff --git a/src/app-framework/InterfaceManager.cc b/src/app-framework/InterfaceManager.cc
index b50aa1d..e00b5de 100644
--- a/src/app-framework/InterfaceManager.cc
+++ b/src/app-framework/InterfaceManager.cc
@@ -426,6 +426,10 @@ namespace PLEXIL
     QueueEntry *entry = m_inputQueue->allocate();
     assertTrue_1(entry);
 
+#ifdef PLEXIL_WITH_THREADS
+    // Marks must enter the queue in order of their sequence numbers
+    std::lock_guard<std::mutex> guard(m_markMutex);
+#endif
     unsigned int sequence = ++m_markCount;
     entry->initForMark(sequence);
     m_inputQueue->put(entry);
diff --git a/src/app-framework/InterfaceManager.hh b/src/app-framework/InterfaceManager.hh
index 69877f9..09645b0 100644
--- a/src/app-framework/InterfaceManager.hh
+++ b/src/app-framework/InterfaceManager.hh
@@ -26,9 +26,14 @@
 #ifndef PLEXIL_INTERFACE_MANAGER_HH
 #define PLEXIL_INTERFACE_MANAGER_HH
 
+#include "plexil-config.h"
+
 #include "AdapterExecInterface.hh"
 
 #include <memory>
+#ifdef PLEXIL_WITH_THREADS
+#include <mutex>
+#endif
 
 // Forward reference
 namespace pugi
@@ -212,6 +217,11 @@ namespace PLEXIL
 
     //! Index of last queue mark enqueued.
     unsigned int m_markCount;
+
+#ifdef PLEXIL_WITH_THREADS
+    //! Serializes calls to markQueue()
+    std::mutex m_markMutex;
+#endif
   };
 
 }
-- 
2.43.0


From f0592b400930fb6883b1dad4949adb537af1b1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:53 +0000
Subject: [PATCH 073/110] fix: the exec doesn't deadlock when it is run in the
 notifying thread

---
 src/app-framework/ExecApplication.cc | 83 ++++++++++++++++------------
 1 file changed, 49 insertions(+), 34 deletions(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index 913343e..3b9343f 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -483,37 +483,10 @@ namespace PLEXIL
                    "ExecApplication: Fatal error: step() called before startInterfaces()");
 
 #ifdef PLEXIL_WITH_THREADS
-      unsigned int oldMark = m_lastMark;
-#endif
-      bool allFinished = false;
-      {
-#ifdef PLEXIL_WITH_THREADS
-        ThreadMutexGuard guard(m_execMutex);
-#endif
-        debugMsg("ExecApplication:runExec", " Processing queue");
-        m_manager->processQueue();
-        do {
-          do {
-            debugMsg("ExecApplication:runExec", " Stepping exec");
-            m_exec->step(StateCache::queryTime());
-          } while (m_exec->needsStep());
-          debugMsg("ExecApplication:runExec", " Processing queue");
-        } while (m_manager->processQueue());
-
-        // Clean up
-        m_exec->deleteFinishedPlans();
-        allFinished = m_exec->allPlansFinished();
-        debugMsg("ExecApplication:runExec", " Queue empty and exec quiescent");
-      }
-#ifdef PLEXIL_WITH_THREADS
-      if (m_planLoaded && allFinished) {
-        debugMsg("ExecApplication:runExec", " All plans finished ");
-        m_allFinishedSem.post();
-      }
-      if (m_lastMark > oldMark) {
-        debugMsg("ExecApplication:runExec", " queue mark(s) processed");
-        m_markSem.post();
-      }
+      std::unique_lock<std::mutex> lock(m_execMutex);
+      runExecLocked(lock);
+#else
+      runToQuiescence();
 #endif
     }
 
@@ -660,11 +633,11 @@ namespace PLEXIL
 #ifdef PLEXIL_WITH_THREADS
       // FIXME: Don't run if called from thread holding mutex - undefined behavior
       // How to fix? Call command handlers from outside the mutex hold.
-      if (!m_runExecInBkgndOnly && m_execMutex.try_lock()) {
+      std::unique_lock<std::mutex> lock(m_execMutex, std::defer_lock);
+      if (!m_runExecInBkgndOnly && lock.try_lock()) {
         // Exec is idle, so run it
         debugMsg("ExecApplication:notify", " exec was idle, stepping it");
-        this->runExec();
-        m_execMutex.unlock();
+        runExecLocked(lock);
       }
       else {
         // Some thread currently owns the exec. Could be this thread.
@@ -833,6 +806,48 @@ namespace PLEXIL
     // Implementation methods
     //
 
+    //! Run the exec until the queue is empty and the plan state is quiescent.
+    //! @return True if all plans have finished.
+    //! @note Caller must hold m_execMutex.
+    bool runToQuiescence()
+    {
+      debugMsg("ExecApplication:runExec", " Processing queue");
+      m_manager->processQueue();
+      do {
+        do {
+          debugMsg("ExecApplication:runExec", " Stepping exec");
+          m_exec->step(StateCache::queryTime());
+        } while (m_exec->needsStep());
+        debugMsg("ExecApplication:runExec", " Processing queue");
+      } while (m_manager->processQueue());
+
+      // Clean up
+      m_exec->deleteFinishedPlans();
+      debugMsg("ExecApplication:runExec", " Queue empty and exec quiescent");
+      return m_exec->allPlansFinished();
+    }
+
+#ifdef PLEXIL_WITH_THREADS
+    //! Run the exec to quiescence, and notify the threads waiting on it.
+    //! @param lock A lock holding m_execMutex; released on return.
+    void runExecLocked(std::unique_lock<std::mutex> &lock)
+    {
+      unsigned int oldMark = m_lastMark;
+      bool allFinished = runToQuiescence();
+      bool newMark = m_lastMark > oldMark;
+      lock.unlock();
+
+      if (m_planLoaded && allFinished) {
+        debugMsg("ExecApplication:runExec", " All plans finished ");
+        m_allFinishedSem.post();
+      }
+      if (newMark) {
+        debugMsg("ExecApplication:runExec", " queue mark(s) processed");
+        m_markSem.post();
+      }
+    }
+#endif
+
 #ifdef PLEXIL_WITH_THREADS
     /**
      * @brief Spawns the worker thread which runs the exec's top level loop.
-- 
2.43.0


From 0480714e55d2ceed03917dc65e100ae52077e4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:44 +0000
Subject: [PATCH 074/110] fix: the name of a library which can't be loaded is
 used before its document is deleted

---
 src/xml-parser/planLibrary.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml-parser/planLibrary.cc b/src/xml-parser/planLibrary.cc
index 4fd25a5..5e03683 100644
--- a/src/xml-parser/planLibrary.cc
+++ b/src/xml-parser/planLibrary.cc
@@ -165,9 +165,9 @@ namespace PLEXIL
       symtab = checkPlan(plan);
     }
     catch (ParserException const &exc) {
-      delete doc;
       warn("Unable to load library node \"" << nodeId << "\": "
            << exc.what());
+      delete doc; // owns nodeId
       return nullptr;
     }
     catch (...) {
-- 
2.43.0


From dbd5a5fae47027e015fb7f560b95c849d0506e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:44 +0000
Subject: [PATCH 075/110] fix: loading a library document again doesn't delete
 it

---
 src/xml-parser/planLibrary.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/xml-parser/planLibrary.cc b/src/xml-parser/planLibrary.cc
index 5e03683..0007fe6 100644
--- a/src/xml-parser/planLibrary.cc
+++ b/src/xml-parser/planLibrary.cc
@@ -155,8 +155,7 @@ namespace PLEXIL
     Library *l = findLibraryNode(nodeId);
 
     if (l && plan == l->doc->document_element()) {
-      // Same plan, no need to go any further
-      delete doc;
+      // Same document, no need to go any further
       return l;
     }
 
-- 
2.43.0


From 287fd5aeb0b5c5ab3bd4d17c3bee8ad731777bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:06 +0000
Subject: [PATCH 076/110] fix: strip white space before the commas of a
 comma-separated list

---
 src/app-framework/InterfaceSchema.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/app-framework/InterfaceSchema.cc b/src/app-framework/InterfaceSchema.cc
index 49a049c..f3e1186 100644
--- a/src/app-framework/InterfaceSchema.cc
+++ b/src/app-framework/InterfaceSchema.cc
@@ -56,9 +56,11 @@ namespace PLEXIL
 	// look for comma or end of string
 	const char * comma = strchr(next, ',');
 	unsigned int len = 
-	  (comma == nullptr) ? 
-	  strcspn(next, whitespace) /* strip trailing whitespace */ :
-	  comma - next;
+	  (comma == nullptr) ? strlen(next) : comma - next;
+
+	// strip trailing whitespace
+	while (len && strchr(whitespace, next[len - 1]))
+	  --len;
 
 	// construct result string
 	result->push_back(std::string(next, len));
-- 
2.43.0


From 79434c5160bffee469ffc832f386cab49088edd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:06 +0000
Subject: [PATCH 077/110] fix: escape special characters in the text sent to
 plan viewers

---
 src/interfaces/LuvListener/LuvFormat.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/interfaces/LuvListener/LuvFormat.cc b/src/interfaces/LuvListener/LuvFormat.cc
index fe60b6e..6715933 100644
--- a/src/interfaces/LuvListener/LuvFormat.cc
+++ b/src/interfaces/LuvListener/LuvFormat.cc
@@ -80,6 +80,23 @@ namespace PLEXIL {
     s << "</" << val << ">";
   }
 
+  /**
+   * @brief Write text to the stream, escaping characters which have a
+   *        special meaning in XML.
+   * @param s The stream to write the text to.
+   * @param text The text.
+   */
+  static void escapedText(std::ostream& s, const char* text) {
+    for (; *text; ++text)
+      switch (*text) {
+      case '&': s << "&amp;"; break;
+      case '<': s << "&lt;"; break;
+      case '>': s << "&gt;"; break;
+      case '\r': s << "&#13;"; break;
+      default: s << *text; break;
+      }
+  }
+
   /**
    * @brief Generate a simple XML element containing some text.
    * @param s The stream to write the element to.
@@ -90,7 +107,7 @@ namespace PLEXIL {
                          const char* tag,
                          const char* text) {
     simpleStartTag(s, tag);
-    s << text;
+    escapedText(s, text);
     endTag(s, tag);
   }
 
-- 
2.43.0


From d698185332fc7295aec7ae638de19d7b9de86215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:12 +0000
Subject: [PATCH 078/110] fix: a viewer listener made without XML doesn't keep
 a reference to deleted XML

---
 src/interfaces/LuvListener/LuvListener.cc | 23 ++++++++++++++++-------
 src/interfaces/LuvListener/LuvListener.hh |  4 ++++
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/interfaces/LuvListener/LuvListener.cc b/src/interfaces/LuvListener/LuvListener.cc
index b9b05cb..edfc7bd 100644
--- a/src/interfaces/LuvListener/LuvListener.cc
+++ b/src/interfaces/LuvListener/LuvListener.cc
@@ -91,6 +91,21 @@ namespace PLEXIL
                << (m_ignoreConnectFailure ? "" : "don't ") << " ignore connection failure");
     }
 
+    /**
+     * @brief Constructor from explicit settings.
+     */
+    LuvListenerImpl(char const *hostname, uint16_t port, bool block)
+      : LuvListener(),
+        m_socket(nullptr),
+        m_host(LUV_DEFAULT_HOSTNAME),
+        m_port(port),
+        m_block(block),
+        m_ignoreConnectFailure(true)
+    {
+      if (hostname && *hostname)
+        m_host = hostname;
+    }
+
     //* Destructor.
     virtual ~LuvListenerImpl()
     {
@@ -282,13 +297,7 @@ namespace PLEXIL
                                unsigned int port,
                                bool block)
   {
-    pugi::xml_document doc;
-    pugi::xml_node toplevel = doc.append_child("Listener");
-    toplevel.append_attribute("ListenerType").set_value("LuvListener");
-    toplevel.append_attribute(LUV_HOSTNAME_ATTR).set_value(hostname);
-    toplevel.append_attribute(LUV_PORT_ATTR).set_value(port);
-    toplevel.append_attribute(LUV_BLOCKING_ATTR).set_value(block);
-    return new LuvListenerImpl(toplevel);
+    return new LuvListenerImpl(hostname, port, block);
   }
 
 } // namespace PLEXIL
diff --git a/src/interfaces/LuvListener/LuvListener.hh b/src/interfaces/LuvListener/LuvListener.hh
index b892c5f..258c757 100644
--- a/src/interfaces/LuvListener/LuvListener.hh
+++ b/src/interfaces/LuvListener/LuvListener.hh
@@ -69,6 +69,10 @@ namespace PLEXIL
 
   protected:
 
+    //! Default constructor.
+    //! @note Only available to the implementation class.
+    LuvListener() = default;
+
     //! Constructor from configuration XML.
     //! @param xml Description of the listener configuration.
     //! @note Only available to the implementation class.
-- 
2.43.0


From b7ee5bfb1e203ac2a6e8366f4776a918156be273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:05 +0000
Subject: [PATCH 079/110] fix: check the value expressions of LibraryNodeCall
 aliases

---
 src/xml-parser/parseLibraryCall.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/xml-parser/parseLibraryCall.cc b/src/xml-parser/parseLibraryCall.cc
index 629cc5c..4a4380c 100644
--- a/src/xml-parser/parseLibraryCall.cc
+++ b/src/xml-parser/parseLibraryCall.cc
@@ -84,6 +84,8 @@ namespace PLEXIL
                                      "Alias for \"" << name
                                      << "\" has malformed value expression in LibraryNodeCall node " 
                                      << callerId);
+    // Check the value expression itself; can throw ParserException
+    checkExpression(callerId.c_str(), temp);
   }
 
   void checkLibraryCall(char const *callerId, xml_node const callXml)
-- 
2.43.0


From ef5fe6a7422606b3539508ed208a6657de556ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:05 +0000
Subject: [PATCH 080/110] fix: refuse a Resource with two upper bounds or two
 release flags

---
 src/xml-parser/commandXmlParser.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/xml-parser/commandXmlParser.cc b/src/xml-parser/commandXmlParser.cc
index bd51465..5b24239 100644
--- a/src/xml-parser/commandXmlParser.cc
+++ b/src/xml-parser/commandXmlParser.cc
@@ -47,7 +47,7 @@ namespace PLEXIL
   static void checkResource(char const *nodeId, xml_node const resourceElt)
   {
     checkTag(RESOURCE_TAG, resourceElt);
-    xml_node nameXml, prioXml;
+    xml_node nameXml, prioXml, upperBoundXml, releaseAtTermXml;
 
     // check the fields
     for (xml_node rtemp = resourceElt.first_child();
@@ -56,7 +56,6 @@ namespace PLEXIL
       ValueType tempType = UNKNOWN_TYPE;
       char const* tag = rtemp.name();
       size_t taglen = strlen(tag);
-      xml_node upperBoundXml, releaseAtTermXml;
       switch (taglen) {
       case 12: // ResourceName
         checkParserExceptionWithLocation(!strcmp(RESOURCE_NAME_TAG, tag),
-- 
2.43.0


From 27124a054ce5931d57f948e0cdb447dc982a8cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:14 +0000
Subject: [PATCH 081/110] fix: no variable-length array of no elements for an
 empty Concat

---
 src/expr/StringOperators.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expr/StringOperators.cc b/src/expr/StringOperators.cc
index 22b22ed..f7a56e0 100644
--- a/src/expr/StringOperators.cc
+++ b/src/expr/StringOperators.cc
@@ -78,6 +78,10 @@ namespace PLEXIL
                                 Function const &func) const
   {
     size_t nargs = func.size();
+    if (!nargs) {
+      result.clear();
+      return true;
+    }
     String const *vals[nargs];
     for (size_t i = 0; i < nargs; ++i) {
       if (!func[i]->getValuePointer(vals[i]))
-- 
2.43.0


From 7c804495f20f98199587652c3d18a56a363948a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:27 +0000
Subject: [PATCH 082/110] fix: refuse a DIV of other than two operands

---
 src/xml-parser/ExpressionMap.gperf | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml-parser/ExpressionMap.gperf b/src/xml-parser/ExpressionMap.gperf
index 79245eb..6d6df25 100644
--- a/src/xml-parser/ExpressionMap.gperf
+++ b/src/xml-parser/ExpressionMap.gperf
@@ -51,7 +51,7 @@ BooleanValue, REGISTER_EXPRESSION(BooleanConstant, BooleanValue)
 BooleanVariable, makeVariableReferenceFactory("BooleanVariable", BOOLEAN_TYPE)
 CEIL, REGISTER_ARITHMETIC_CONVERSION_OPERATION(CEIL, Ceiling)
 Concat, REGISTER_CACHED_SIMPLE_OPERATION(Concat, StringConcat, STRING_TYPE, STRING_TYPE)
-DIV, REGISTER_ARITHMETIC_OPERATION(DIV, Division)
+DIV, REGISTER_TWO_ARG_ARITHMETIC_OPERATION(DIV, Division)
 DeclareArray, REGISTER_EXPRESSION(ArrayVariable, DeclareArray)
 DeclareVariable, makeUserVariableFactory("DeclareVariable")
 EQArray, REGISTER_EQUALITY_OPERATION(EQArray, Equal)
-- 
2.43.0


From 83b0beffff04694cdd7635ab249c8f3693dbf0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:52 +0000
Subject: [PATCH 083/110] fix: refuse a variable declaration in the place of an
 expression

---
 src/xml-parser/createExpression.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/xml-parser/createExpression.cc b/src/xml-parser/createExpression.cc
index 239d139..6f2022f 100644
--- a/src/xml-parser/createExpression.cc
+++ b/src/xml-parser/createExpression.cc
@@ -91,6 +91,18 @@ namespace PLEXIL
                                      "Node \"" << nodeId
                                      << "\": Unknown expression \"" << name << "\".");
 
+    // Declarations are only legal as such, not as operands, arguments, etc.
+    if (!strcmp(name, DECL_VAR_TAG) || !strcmp(name, DECL_ARRAY_TAG)) {
+      xml_node const parent = expr.parent();
+      checkParserExceptionWithLocation(parent.type() != pugi::node_element
+                                       || testTag(VAR_DECLS_TAG, parent)
+                                       || testTag(IN_TAG, parent)
+                                       || testTag(INOUT_TAG, parent),
+                                       expr,
+                                       "Node \"" << nodeId
+                                       << "\": \"" << name << "\" is not an expression");
+    }
+
     return entry->factory->check(nodeId, expr, desiredType);
   }
 
-- 
2.43.0


From 3345b27ec9c641268b78a08b2a8ea4749078a087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:01 +0000
Subject: [PATCH 084/110] fix: check the types of operands again once those of
 array variables are known

---
 src/xml-parser/OperationFactory.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xml-parser/OperationFactory.cc b/src/xml-parser/OperationFactory.cc
index e9d4fd4..d423534 100644
--- a/src/xml-parser/OperationFactory.cc
+++ b/src/xml-parser/OperationFactory.cc
@@ -104,7 +104,10 @@ namespace PLEXIL
         throw;
       }
 
-      Operator const *oper = m_operation->getOperator(argTypes, desiredType);
+      // Some types, e.g. of array variables, are only known now
+      Operator const *oper = nullptr;
+      if (m_operation->checkArgTypes(argTypes))
+        oper = m_operation->getOperator(argTypes, desiredType);
       if (!oper) {
         std::string typeNames;
         for (size_t j = 0; j < n; ++j) {
-- 
2.43.0


From cc117ccbfc34dd52a6822142b07e9a65d23197ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:01 +0000
Subject: [PATCH 085/110] fix: refuse a body of a NodeList node which is no
 NodeList

---
 src/xml-parser/parseNode.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xml-parser/parseNode.cc b/src/xml-parser/parseNode.cc
index c8a805e..fa4744e 100644
--- a/src/xml-parser/parseNode.cc
+++ b/src/xml-parser/parseNode.cc
@@ -373,6 +373,7 @@ namespace PLEXIL
 
   static void checkChildNodes(char const *parentId, xml_node const kidsXml)
   {
+    checkTag(NODELIST_TAG, kidsXml);
     std::vector<char const *> nodeIds;
     xml_node kidXml = kidsXml.first_child();
     while (kidXml) { // empty list node is legal
-- 
2.43.0


From 8b218ae31e47a32591085374da82756a867841c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:01 +0000
Subject: [PATCH 086/110] fix: refuse a local mutex declaration with an initial
 value

---
 src/xml-parser/parseNode.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xml-parser/parseNode.cc b/src/xml-parser/parseNode.cc
index fa4744e..e52d1f6 100644
--- a/src/xml-parser/parseNode.cc
+++ b/src/xml-parser/parseNode.cc
@@ -166,6 +166,9 @@ namespace PLEXIL
                                      decl,
                                      "Malformed or empty " << decl.name()
                                      << " in node " << nodeId);
+    // A mutex has nothing but a name
+    for (xml_node part : decl.children())
+      checkTag(NAME_TAG, part);
   }
 
   static void checkVariableDeclarations(char const *nodeId, xml_node const decls)
-- 
2.43.0


From 575b62e8f8db07607ae9b6ee46efd70031b3f24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:49 +0000
Subject: [PATCH 087/110] fix: refuse the elements of a read-only array as
 destinations

---
 src/xml-parser/ArrayReferenceFactory.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xml-parser/ArrayReferenceFactory.cc b/src/xml-parser/ArrayReferenceFactory.cc
index 7171123..b0b7fbe 100644
--- a/src/xml-parser/ArrayReferenceFactory.cc
+++ b/src/xml-parser/ArrayReferenceFactory.cc
@@ -186,6 +186,7 @@ namespace PLEXIL
         delete arrayExpr;
       if (indexCreated)
         delete indexExpr;
+      throw;
     }
 
     wasCreated = true;
-- 
2.43.0


From 814a328034d9f4ecb5754b6c25c85a34084675b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:49 +0000
Subject: [PATCH 088/110] fix: refuse an initial value of a wrong type with a
 parser error

---
 src/xml-parser/parseNode.cc | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/xml-parser/parseNode.cc b/src/xml-parser/parseNode.cc
index e52d1f6..e21d2b6 100644
--- a/src/xml-parser/parseNode.cc
+++ b/src/xml-parser/parseNode.cc
@@ -1046,23 +1046,25 @@ namespace PLEXIL
         if (garbage)
           delete init;
 
-        // Should have been caught in ArrayVariableFactory::check()
-        errorMsg("parseVariableInitializer: internal error: \n Node "
-                 << node->getNodeId() << ", array variable \"" << varName 
-                 << "\": Invalid " << INITIALVAL_TAG
-                 << " for array variable");
+        reportParserExceptionWithLocation(decl,
+                                          "Node " << node->getNodeId()
+                                          << ", array variable \"" << varName 
+                                          << "\": Invalid " << INITIALVAL_TAG
+                                          << " for array variable");
       }
     }
     else if (!areTypesCompatible(varType, initType)) {
       if (garbage)
         delete init;
 
-      // Should have been caught in UserVariableFactory::check()
-      errorMsg("parseVariableInitializer: internal error: \n Node "
-               << node->getNodeId() << ", variable \"" << varName 
-               << "\": Initialization type mismatch.\n"
-               << " Variable type is " << valueTypeName(varType)
-               << ", initializer is " << valueTypeName(initType));
+      // Not caught in UserVariableFactory::check() if the initializer
+      // is an array variable
+      reportParserExceptionWithLocation(decl,
+                                        "Node " << node->getNodeId()
+                                        << ", variable \"" << varName 
+                                        << "\": Initialization type mismatch.\n"
+                                        << " Variable type is " << valueTypeName(varType)
+                                        << ", initializer is " << valueTypeName(initType));
     }
 
     return init;
-- 
2.43.0


From 21470e50ecc4270e76b3e378906eb10f0d11ec41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:00 +0000
Subject: [PATCH 089/110] fix: refuse a library node which calls itself

---
 src/xml-parser/parseLibraryCall.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/xml-parser/parseLibraryCall.cc b/src/xml-parser/parseLibraryCall.cc
index 4a4380c..48b2616 100644
--- a/src/xml-parser/parseLibraryCall.cc
+++ b/src/xml-parser/parseLibraryCall.cc
@@ -136,6 +136,16 @@ namespace PLEXIL
                                      << callXml.first_child().child_value()
                                      << " not found while expanding LibraryNodeCall node "
                                      << node->getNodeId());
+    // A library which calls itself, directly or not, could never be expanded.
+    char const *libName = callXml.first_child().child_value();
+    for (NodeImpl const *n = node; n && n->getParentNode(); n = n->getParentNode())
+      checkParserExceptionWithLocation(n->getParentNode()->getType() != NodeType_LibraryNodeCall
+                                       || n->getNodeId() != libName,
+                                       callXml,
+                                       "Recursive call to library node " << libName
+                                       << " while expanding LibraryNodeCall node "
+                                       << node->getNodeId());
+
     // Construct call
     // Template was checked before it was added to library
     node->addChild(constructPlan(l->doc->document_element(), l->symtab, node));
-- 
2.43.0


From 4bcc8caa500e64004cda76823bf856c0e6b7de94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:00 +0000
Subject: [PATCH 090/110] fix: accept the names of all command handle values

---
 src/xml-parser/ConstantFactory.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/xml-parser/ConstantFactory.cc b/src/xml-parser/ConstantFactory.cc
index 1124371..922a5d1 100644
--- a/src/xml-parser/ConstantFactory.cc
+++ b/src/xml-parser/ConstantFactory.cc
@@ -395,6 +395,9 @@ namespace PLEXIL
     case COMMAND_FAILED:
     case COMMAND_DENIED:
     case COMMAND_SUCCESS:
+    case COMMAND_ABORTED:
+    case COMMAND_ABORT_FAILED:
+    case COMMAND_INTERFACE_ERROR:
       return COMMAND_HANDLE_TYPE; // is OK
 
     default:
@@ -430,6 +433,15 @@ namespace PLEXIL
     case COMMAND_SUCCESS:
       return COMMAND_SUCCESS_CONSTANT();
 
+    case COMMAND_ABORTED:
+      return COMMAND_ABORTED_CONSTANT();
+
+    case COMMAND_ABORT_FAILED:
+      return COMMAND_ABORT_FAILED_CONSTANT();
+
+    case COMMAND_INTERFACE_ERROR:
+      return COMMAND_INTERFACE_ERROR_CONSTANT();
+
     default:
       reportParserExceptionWithLocation(expr,
                                         "createExpression: Invalid CommandHandleValue");
-- 
2.43.0


From 2591d955df9f88b7215abe6bc5d1d23a621b2941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:38 +0000
Subject: [PATCH 091/110] fix: a scalar initial value of an array is that of
 all its elements

---
 src/xml-parser/parseNode.cc | 53 ++++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 7 deletions(-)

diff --git a/src/xml-parser/parseNode.cc b/src/xml-parser/parseNode.cc
index e21d2b6..ff6b127 100644
--- a/src/xml-parser/parseNode.cc
+++ b/src/xml-parser/parseNode.cc
@@ -27,13 +27,14 @@
 #include "parseNode.hh"
 
 #include "Alias.hh"
-#include "Array.hh"
+#include "ArrayImpl.hh"
 #include "ArrayLiteralFactory.hh"
 #include "Assignable.hh"
 #include "AssignmentNode.hh"
 #include "CommandImpl.hh"
 #include "CommandNode.hh"
 #include "commandXmlParser.hh"
+#include "Constant.hh"
 #include "createExpression.hh"
 #include "Debug.hh"
 #include "LibraryCallNode.hh"
@@ -991,6 +992,18 @@ namespace PLEXIL
 
   // TODO - Refactor so checks can be reused by In or InOut
   
+  //! Make an array constant whose elements all have the same value.
+  //! @param size Size of the array.
+  //! @param elt The expression whose value is that of the elements.
+  template <typename T>
+  static Expression *makeFilledArray(size_t size, Expression const *elt)
+  {
+    T value;
+    if (elt->getValue(value))
+      return new Constant<ArrayImpl<T> >(ArrayImpl<T>(size, value));
+    return new Constant<ArrayImpl<T> >(ArrayImpl<T>(size));
+  }
+
   //! Perform checks on a variable declaration's initial value, and
   //! set the variable's initializer. Report errors as appropriate.
   //! @param node The Node instance in which the declaration occurs.
@@ -1035,12 +1048,38 @@ namespace PLEXIL
       else if (areTypesCompatible(arrayElementType(varType),
                                   init->valueType())) {
         // Initializer is scalar literal
-        checkParserExceptionWithLocation(sizeSpec >= 0,
-                                         decl,
-                                         "Node " << node->getNodeId()
-                                         << ", array variable \"" << varName 
-                                         << "\": Scalar initial value requires "
-                                         << MAX_SIZE_TAG);
+        if (sizeSpec < 0) {
+          if (garbage)
+            delete init;
+          reportParserExceptionWithLocation(decl,
+                                            "Node " << node->getNodeId()
+                                            << ", array variable \"" << varName 
+                                            << "\": Scalar initial value requires "
+                                            << MAX_SIZE_TAG);
+        }
+        // It is the initial value of every element
+        Expression *filled = nullptr;
+        switch (arrayElementType(varType)) {
+        case BOOLEAN_TYPE:
+          filled = makeFilledArray<Boolean>(sizeSpec, init);
+          break;
+        case INTEGER_TYPE:
+          filled = makeFilledArray<Integer>(sizeSpec, init);
+          break;
+        case REAL_TYPE:
+          filled = makeFilledArray<Real>(sizeSpec, init);
+          break;
+        case STRING_TYPE:
+          filled = makeFilledArray<String>(sizeSpec, init);
+          break;
+        default: // should never happen
+          break;
+        }
+        assertTrue_1(filled);
+        if (garbage)
+          delete init;
+        init = filled;
+        garbage = true;
       }
       else {
         if (garbage)
-- 
2.43.0


From 3edf61b9ccab764fb0f8cf125fb43f8112ff168b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:13 +0000
Subject: [PATCH 092/110] fix: check the argument count of a declared command
 without Arguments

---
 src/xml-parser/commandXmlParser.cc | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/xml-parser/commandXmlParser.cc b/src/xml-parser/commandXmlParser.cc
index 5b24239..885fe74 100644
--- a/src/xml-parser/commandXmlParser.cc
+++ b/src/xml-parser/commandXmlParser.cc
@@ -382,21 +382,21 @@ namespace PLEXIL
 
     // Optional arguments
     temp = temp.next_sibling();
+    size_t n = 0;
+    xml_node arg;
+    for (arg = temp.first_child(); arg; arg = arg.next_sibling())
+      ++n;
+    if (cmdSym) {
+      // Check argument count against command declaration
+      checkParserExceptionWithLocation(n == cmdSym->parameterCount()
+                                       || (cmdSym->anyParameters() && n > cmdSym->parameterCount()),
+                                       cmdXml,
+                                       "Command " << cmdSym->name() << " expects "
+                                       << (cmdSym->anyParameters() ? "at least " : "")
+                                       << cmdSym->parameterCount() << " arguments, but was supplied "
+                                       << n);
+    }
     if (temp) {
-      size_t n = 0;
-      xml_node arg;
-      for (arg = temp.first_child(); arg; arg = arg.next_sibling())
-        ++n;
-      if (cmdSym) {
-        // Check argument count against command declaration
-        checkParserExceptionWithLocation(n == cmdSym->parameterCount()
-                                         || (cmdSym->anyParameters() && n > cmdSym->parameterCount()),
-                                         temp,
-                                         "Command " << cmdSym->name() << " expects "
-                                         << (cmdSym->anyParameters() ? "at least " : "")
-                                         << cmdSym->parameterCount() << " arguments, but was supplied "
-                                         << n);
-      }
       if (n) {
         ExprVec *argVec = makeExprVec(n);
         cmd->setArgumentVector(argVec);
-- 
2.43.0


From cc010b9e71f3e6b7628017d425b8372e2907bcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:13 +0000
Subject: [PATCH 093/110] fix: refuse a Command with elements after its
 Arguments

---
 src/xml-parser/commandXmlParser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xml-parser/commandXmlParser.cc b/src/xml-parser/commandXmlParser.cc
index 885fe74..04dbce6 100644
--- a/src/xml-parser/commandXmlParser.cc
+++ b/src/xml-parser/commandXmlParser.cc
@@ -243,6 +243,10 @@ namespace PLEXIL
     temp = temp.next_sibling();
     if (temp) {
       checkTag(ARGS_TAG, temp);
+      checkParserExceptionWithLocation(!temp.next_sibling(),
+                                       temp.next_sibling(),
+                                       "Command Node \"" << nodeId
+                                       << "\": Extraneous content after " << ARGS_TAG);
       // Check argument types, count against declaration
       // See lookupXmlParser.cc
       temp = temp.first_child();
-- 
2.43.0


From ec3f2d7d888c797dec5fc289a27a97c6a2fd7663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:17 +0000
Subject: [PATCH 094/110] fix: accept an empty array as the value of a library
 node's parameter

---
 src/xml-parser/parseLibraryCall.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/xml-parser/parseLibraryCall.cc b/src/xml-parser/parseLibraryCall.cc
index 48b2616..f284e12 100644
--- a/src/xml-parser/parseLibraryCall.cc
+++ b/src/xml-parser/parseLibraryCall.cc
@@ -77,9 +77,7 @@ namespace PLEXIL
                                      "Alias for \"" << name
                                      << "\" without value expression in LibraryNodeCall node "
                                      << callerId);
-    // Don't need to have a child if it is of string type, otherwise do
-    checkParserExceptionWithLocation(temp.type() == node_element &&
-                                     (temp.first_child() || !strcmp(temp.name(), "StringValue")),
+    checkParserExceptionWithLocation(temp.type() == node_element,
                                      temp,
                                      "Alias for \"" << name
                                      << "\" has malformed value expression in LibraryNodeCall node " 
-- 
2.43.0


From d2d8727fe46635d9fab6269595116c350b1094cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:43 +0000
Subject: [PATCH 095/110] fix: the simulator issued what its script gives for
 the same time in reverse order

---
 src/apps/StandAloneSimulator/Agenda.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/apps/StandAloneSimulator/Agenda.cc b/src/apps/StandAloneSimulator/Agenda.cc
index 599b497..44de9ce 100644
--- a/src/apps/StandAloneSimulator/Agenda.cc
+++ b/src/apps/StandAloneSimulator/Agenda.cc
@@ -111,12 +111,13 @@ public:
     return msg;
   }
   
-  // Insert into list in earliest-first order.
+  // Insert into list in earliest-first order,
+  // after any previously scheduled for the same time.
   virtual void scheduleResponse(timeval tym, ResponseMessage *msg)
   {
     std::lock_guard<std::mutex> g(*m_mutex);
     AgendaQueue::iterator it = m_queue.begin();
-    while (it != m_queue.end() && it->first < tym)
+    while (it != m_queue.end() && !(it->first > tym))
       ++it;
     m_queue.emplace(it, AgendaEntry(tym, std::unique_ptr<ResponseMessage>(msg)));
   }
-- 
2.43.0


From 82ea05604c3e5b824947f4da885fdc03a410ef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:43 +0000
Subject: [PATCH 096/110] fix: the simulator forgot responses due at a whole
 second

---
 src/apps/StandAloneSimulator/Simulator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/apps/StandAloneSimulator/Simulator.cc b/src/apps/StandAloneSimulator/Simulator.cc
index 97a93d2..268da9f 100644
--- a/src/apps/StandAloneSimulator/Simulator.cc
+++ b/src/apps/StandAloneSimulator/Simulator.cc
@@ -341,7 +341,7 @@ private:
     // Schedule next wakeup, if any
     //
     struct timeval nextWakeup = m_Agenda->nextResponseTime();
-    if (nextWakeup.tv_sec != 0 && nextWakeup.tv_usec != 0) {
+    if (nextWakeup.tv_sec != 0 || nextWakeup.tv_usec != 0) {
       debugMsg("Simulator:handleWakeUp",
                " Scheduling next wakeup at "
                << std::setiosflags(std::ios_base::fixed) << std::setprecision(6)
-- 
2.43.0


From 8ed2da4461fd8b98ff5be3b201568e56cae5a6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:43 +0000
Subject: [PATCH 097/110] fix: a simulator timer set for the current time never
 expired

---
 src/apps/StandAloneSimulator/TimingService.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/apps/StandAloneSimulator/TimingService.cc b/src/apps/StandAloneSimulator/TimingService.cc
index 3af7657..b0ce260 100644
--- a/src/apps/StandAloneSimulator/TimingService.cc
+++ b/src/apps/StandAloneSimulator/TimingService.cc
@@ -181,9 +181,11 @@ bool TimingService::setTimer(const timeval& time)
   myTimer.it_interval.tv_sec = myTimer.it_interval.tv_usec = 0;
   myTimer.it_value = time - now;
       
-  if (myTimer.it_value.tv_sec < 0 || myTimer.it_value.tv_usec < 0) {
+  // N.B. Setting it to 0 would disable it
+  if (myTimer.it_value.tv_sec < 0 || myTimer.it_value.tv_usec < 0
+	  || (myTimer.it_value.tv_sec == 0 && myTimer.it_value.tv_usec == 0)) {
 	debugMsg("TimingService:setTimer",
-			 " Not setting interval timer, requested time is in the past");
+			 " Not setting interval timer, requested time is now or in the past");
 	return false;
   }
       
-- 
2.43.0


From d9933489104353bce90d1a2a21e8a9bf9646d206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:43 +0000
Subject: [PATCH 098/110] fix: a command which the script gives no response
 ended the simulator

---
 src/apps/StandAloneSimulator/CommandResponseManager.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/apps/StandAloneSimulator/CommandResponseManager.cc b/src/apps/StandAloneSimulator/CommandResponseManager.cc
index f2eb1f2..e6df54b 100644
--- a/src/apps/StandAloneSimulator/CommandResponseManager.cc
+++ b/src/apps/StandAloneSimulator/CommandResponseManager.cc
@@ -101,12 +101,8 @@ public:
              " " << m_Identifier << ", count: " << m_Counter);
     ++m_Counter;
 
-    // This shouldn't happen, but check anyway just in case
-    assertTrueMsg(respBase != nullptr,
-                  "getResponses: Internal error: No response found for \""
-                  << m_Identifier << "\"");
-
-    if (respBase->numberOfResponses > 0) {
+    // The script need not supply a default response
+    if (respBase && respBase->numberOfResponses > 0) {
       tDelay = respBase->delay;
       return respBase;
     }
-- 
2.43.0


From 4a54ddb441de19d77ce1ef1b5fb8cd5908ec1e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:43 +0000
Subject: [PATCH 099/110] fix: the simulator took negative values in its script
 for comments

---
 src/apps/StandAloneSimulator/LineInStream.cc             | 8 ++++++--
 src/apps/StandAloneSimulator/LineInStream.hh             | 7 ++++++-
 src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc | 4 ++--
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/apps/StandAloneSimulator/LineInStream.cc b/src/apps/StandAloneSimulator/LineInStream.cc
index 466b5c6..2761b31 100644
--- a/src/apps/StandAloneSimulator/LineInStream.cc
+++ b/src/apps/StandAloneSimulator/LineInStream.cc
@@ -28,6 +28,9 @@
 
 #include "Debug.hh"
 
+#include <cctype>
+#include <cstring>
+
 LineInStream::LineInStream()
   : m_filename(),
     m_filestream(),
@@ -59,7 +62,7 @@ void LineInStream::close()
   }
 }
 
-std::istream &LineInStream::getLine()
+std::istream &LineInStream::getLine(bool isValue)
 {
   if (!m_filestream.good() || m_filestream.eof()) {
     debugMsg("LineInStream:getLine", " at EOF or error");
@@ -74,7 +77,8 @@ std::istream &LineInStream::getLine()
     size_t firstNonWhitespace = m_linebuf.find_first_not_of(" \t\n\r");
     ignoreLine = (m_linebuf.size() == 0)
       || (std::string::npos == firstNonWhitespace)
-      || !isalnum(m_linebuf[firstNonWhitespace]);
+      || !(isalnum((unsigned char) m_linebuf[firstNonWhitespace])
+           || (isValue && strchr("+-._\"'", m_linebuf[firstNonWhitespace])));
     condDebugMsg(ignoreLine,
                  "LineInStream:getLine",
                  " ignoring blank or comment line");
diff --git a/src/apps/StandAloneSimulator/LineInStream.hh b/src/apps/StandAloneSimulator/LineInStream.hh
index 435fe1f..5ab6023 100644
--- a/src/apps/StandAloneSimulator/LineInStream.hh
+++ b/src/apps/StandAloneSimulator/LineInStream.hh
@@ -45,7 +45,12 @@ public:
 
   void close();
 
-  std::istream &getLine();
+  // Get the next line which is neither blank nor a comment,
+  // or an empty line at end of file.
+  // A comment is a line whose first character is not alphanumeric;
+  // the line of a value may also start with a sign, decimal point,
+  // underscore, or quotation mark.
+  std::istream &getLine(bool isValue = false);
 
   std::istringstream &getLineStream();
 
diff --git a/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc b/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc
index 62714eb..d6e26c3 100644
--- a/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc
+++ b/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc
@@ -56,7 +56,7 @@ public:
 
     // Return value is on next line
     Value returnValue;
-    instream.getLine();
+    instream.getLine(true);
     returnValue = parseReturnValue(instream, returnType);
     // Error handling??
 
@@ -86,7 +86,7 @@ public:
 
     Value returnValue;
     // Return value is on next line
-    instream.getLine();
+    instream.getLine(true);
     if (instream.eof()) {
       std::cerr << "Error: file " << instream.getFileName()
                 << ", line " << instream.getLineCount()
-- 
2.43.0


From afb581c27ee90f40dce08a6fbe6d02a518df05c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:43 +0000
Subject: [PATCH 100/110] fix: a comment at the very end of a simulator script
 was taken for an entry

---
 src/apps/StandAloneSimulator/LineInStream.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/apps/StandAloneSimulator/LineInStream.cc b/src/apps/StandAloneSimulator/LineInStream.cc
index 2761b31..ebe0bcd 100644
--- a/src/apps/StandAloneSimulator/LineInStream.cc
+++ b/src/apps/StandAloneSimulator/LineInStream.cc
@@ -84,6 +84,8 @@ std::istream &LineInStream::getLine(bool isValue)
                  " ignoring blank or comment line");
   }
   while (ignoreLine && m_filestream.good() && !m_filestream.eof());
+  if (ignoreLine)
+    m_linebuf.clear(); // last line of file was a comment
 
   debugMsg("LineInStream:getLine",
            " line = \"" << m_linebuf << "\"");
-- 
2.43.0


From 107139aa6c6fec41b6e9a7b60e7f71fc78ae40f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:01 +0000
Subject: [PATCH 101/110] fix: the simulator returned an uninitialized value
 for UNKNOWN in its script

---
 src/apps/StandAloneSimulator/ResponseFactory.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/apps/StandAloneSimulator/ResponseFactory.cc b/src/apps/StandAloneSimulator/ResponseFactory.cc
index e71ae44..0d86770 100644
--- a/src/apps/StandAloneSimulator/ResponseFactory.cc
+++ b/src/apps/StandAloneSimulator/ResponseFactory.cc
@@ -94,26 +94,22 @@ Value parseReturnValue(LineInStream &instream, ValueType returnType)
   switch (returnType) {
   case BOOLEAN_TYPE: {
     Boolean bv;
-    parseValue(line, bv);
-    return Value(bv);
+    return parseValue(line, bv) ? Value(bv) : Value();
   }
 
   case INTEGER_TYPE: {
     Integer iv;
-    parseValue(line, iv);
-    return Value(iv);
+    return parseValue(line, iv) ? Value(iv) : Value();
   }
 
   case REAL_TYPE: {
     Real rv;
-    parseValue(line, rv);
-    return Value(rv);
+    return parseValue(line, rv) ? Value(rv) : Value();
   }
 
   case STRING_TYPE: {
     String sv;
-    parseValue(line, sv);
-    return Value(sv);
+    return parseValue(line, sv) ? Value(sv) : Value();
   }
 
   case COMMAND_HANDLE_TYPE:
-- 
2.43.0


From 5a78de76f1fc55c744a31b6e35427326c299b99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:01 +0000
Subject: [PATCH 102/110] fix: the simulator refused a value not followed by a
 newline, and made one up for a missing one

---
 .../StandAloneSimulator/PlexilSimResponseFactory.cc  | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc b/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc
index d6e26c3..f2497c3 100644
--- a/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc
+++ b/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc
@@ -57,8 +57,16 @@ public:
     // Return value is on next line
     Value returnValue;
     instream.getLine(true);
+    if (instream.getLineStream().str().empty()) {
+      std::cerr << "Error: file " << instream.getFileName()
+                << ", line " << instream.getLineCount()
+                << ": premature end of file reading return value for "
+                << name
+                << std::endl;
+      return false;
+    }
+
     returnValue = parseReturnValue(instream, returnType);
-    // Error handling??
 
     debugMsg("PlexilSimResponseFactory:parseTelemetryReturn",
              " Adding telemetry for " << name << " value " << returnValue
@@ -87,7 +95,7 @@ public:
     Value returnValue;
     // Return value is on next line
     instream.getLine(true);
-    if (instream.eof()) {
+    if (instream.getLineStream().str().empty()) {
       std::cerr << "Error: file " << instream.getFileName()
                 << ", line " << instream.getLineCount()
                 << ": premature end of file reading return value for "
-- 
2.43.0


From 6e6dee0ed26b294881979b7f14584d7f6076381f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:53 +0000
Subject: [PATCH 103/110] fix: malformed values in a simulator script ended the
 simulator, and other malformed entries were not reported as errors

---
 .../StandAloneSimulator/ResponseFactory.cc    | 15 ++-----
 .../StandAloneSimulator/ResponseFactory.hh    |  1 +
 .../SimulatorScriptReader.cc                  | 44 +++++++++++++------
 3 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/apps/StandAloneSimulator/ResponseFactory.cc b/src/apps/StandAloneSimulator/ResponseFactory.cc
index 0d86770..52aba28 100644
--- a/src/apps/StandAloneSimulator/ResponseFactory.cc
+++ b/src/apps/StandAloneSimulator/ResponseFactory.cc
@@ -27,6 +27,7 @@
 
 #include "LineInStream.hh"
 
+#include "ParserException.hh"
 #include "timeval-utils.hh"
 
 #include <iostream>
@@ -123,18 +124,10 @@ Value parseReturnValue(LineInStream &instream, ValueType returnType)
   case REAL_ARRAY_TYPE:
   case STRING_ARRAY_TYPE:
 
-    std::cerr << "Error: file " << instream.getFileName()
-              << ", line " << instream.getLineCount()
-              << ": unimplemented return value type "
-              << valueTypeName(returnType)
-              << std::endl;
-    return Value();
+    reportParserException("unimplemented return value type "
+                          << valueTypeName(returnType));
 
   default:
-    std::cerr << "Error: file " << instream.getFileName()
-              << ", line " << instream.getLineCount()
-              << ": invalid return value type " << returnType
-              << std::endl;
-    return Value();
+    reportParserException("invalid return value type " << returnType);
   }
 }
diff --git a/src/apps/StandAloneSimulator/ResponseFactory.hh b/src/apps/StandAloneSimulator/ResponseFactory.hh
index abe35ac..9c3686a 100644
--- a/src/apps/StandAloneSimulator/ResponseFactory.hh
+++ b/src/apps/StandAloneSimulator/ResponseFactory.hh
@@ -94,6 +94,7 @@ protected:
 };
 
 // Utility needed by implementors of the above
+// Throws ParserException if the line can't be parsed as the type
 PLEXIL::Value parseReturnValue(LineInStream &instream,
                                PLEXIL::ValueType returnType);
 
diff --git a/src/apps/StandAloneSimulator/SimulatorScriptReader.cc b/src/apps/StandAloneSimulator/SimulatorScriptReader.cc
index c298f48..1ada306 100644
--- a/src/apps/StandAloneSimulator/SimulatorScriptReader.cc
+++ b/src/apps/StandAloneSimulator/SimulatorScriptReader.cc
@@ -36,6 +36,7 @@
 
 #include "CommandHandle.hh"
 #include "Debug.hh"
+#include "ParserException.hh"
 #include "timeval-utils.hh"
 #include "Value.hh"
 
@@ -107,16 +108,37 @@ public:
              " for " << fName << ", telemetry = "
              << (telemetry ? "true" : "false"));
 
-    bool compatibilityMode = false;
-    if (telemetry)
-      compatibilityMode = true;
-
     LineInStream instream;
     if (!instream.open(fName)) {
       std::cerr << "Error: cannot open script file \"" << fName << "\"" << std::endl;
       return false;
     }
 
+    try {
+      if (!readLines(instream, telemetry))
+        return false;
+    }
+    catch (ParserException const &e) {
+      std::cerr << "Error: file " << instream.getFileName()
+                << ", line " << instream.getLineCount()
+                << ": " << e.what()
+                << std::endl;
+      return false;
+    }
+  
+    instream.close();
+
+    return true;
+  }
+
+private:
+
+  bool readLines(LineInStream &instream, bool telemetry)
+  {
+    bool compatibilityMode = false;
+    if (telemetry)
+      compatibilityMode = true;
+
     while (!instream.eof()) {
       std::istream &linestream = instream.getLine();
       std::string firstWord;
@@ -145,11 +167,11 @@ public:
       else if (compatibilityMode) {
         if (telemetry) {
           if (!m_factory->parseTelemetryReturn(m_agenda, instream, firstWord, REAL_TYPE))
-            break;
+            return false;
         }
         else if (!m_factory->parseCommandReturn(ensureResponseMessageManager(firstWord),
                                                 instream, firstWord, REAL_TYPE))
-          break;
+          return false;
       }
       else if (UNKNOWN_TYPE != parseValueType(firstWord)) {
         // Is declaration
@@ -198,18 +220,18 @@ public:
         compatibilityMode = true;
         if (!m_factory->parseCommandReturn(ensureResponseMessageManager(firstWord),
                                            instream, firstWord, REAL_TYPE))
-          break;
+          return false;
       }
       else if (m_symbolTable.find(firstWord) != m_symbolTable.end()) {
         // This is a known symbol, parse according to symbol type
         SimSymbol *sym = m_symbolTable[firstWord].get();
         if (sym->symbolType == LOOKUP_SYM_TYPE) {
           if (!m_factory->parseTelemetryReturn(m_agenda, instream, firstWord, sym->returnType))
-            break;
+            return false;
         }
         else if (!m_factory->parseCommandReturn(ensureResponseMessageManager(firstWord),
                                                 instream, firstWord, sym->returnType))
-          break;
+          return false;
       }
       else {
         std::cerr << "Error: file " << instream.getFileName()
@@ -219,14 +241,10 @@ public:
         return false;
       }
     }
-  
-    instream.close();
 
     return true;
   }
 
-private:
-
   // First word has already been parsed as a type
   SimSymbol *parseDeclaration(LineInStream &instream, ValueType returnType)
   {
-- 
2.43.0


From 645b3a801685af7ee64e9ba68abfdaef0e60fccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:53 +0000
Subject: [PATCH 104/110] fix: the simulator accepted a declaration without a
 name

---
 .../StandAloneSimulator/SimulatorScriptReader.cc     | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/apps/StandAloneSimulator/SimulatorScriptReader.cc b/src/apps/StandAloneSimulator/SimulatorScriptReader.cc
index 1ada306..7728a2e 100644
--- a/src/apps/StandAloneSimulator/SimulatorScriptReader.cc
+++ b/src/apps/StandAloneSimulator/SimulatorScriptReader.cc
@@ -189,6 +189,7 @@ private:
                     << ", line " << instream.getLineCount()
                     << ": symbol \"" << sym->name << "\" is already declared"
                     << std::endl;
+          delete sym;
           return false;
         }
         m_symbolTable.emplace(sym->name, std::unique_ptr<SimSymbol>(sym));
@@ -209,6 +210,7 @@ private:
                     << ", line " << instream.getLineCount()
                     << ": symbol \"" << sym->name << "\" is already declared"
                     << std::endl;
+          delete sym;
           return false;
         }
         m_symbolTable.emplace(sym->name, std::unique_ptr<SimSymbol>(sym));
@@ -269,7 +271,10 @@ private:
     // Get name
     instream.getLineStream() >> word;
     // Check for I/O error
-    // TODO
+    if (instream.getLineStream().fail()) {
+      std::cerr << "Error: Lookup declaration without a name" << std::endl;
+      return nullptr;
+    }
 
     debugMsg("SimulatorScriptReader:parseLookupDeclaration",
              ' ' << word);
@@ -290,7 +295,10 @@ private:
     std::string word;
     instream.getLineStream() >> word;
     // Check for I/O error
-    // TODO
+    if (instream.getLineStream().fail()) {
+      std::cerr << "Error: Command declaration without a name" << std::endl;
+      return nullptr;
+    }
 
     debugMsg("SimulatorScriptReader:parseCommandDeclaration",
              ' ' << word);
-- 
2.43.0


From b40f249963f77f40974413d2dcfdf4d2f3d08be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:53 +0000
Subject: [PATCH 105/110] fix: the simulator accepted delays and command
 indices it can't represent

---
 .../StandAloneSimulator/ResponseFactory.cc    | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/apps/StandAloneSimulator/ResponseFactory.cc b/src/apps/StandAloneSimulator/ResponseFactory.cc
index 52aba28..7e8dcdb 100644
--- a/src/apps/StandAloneSimulator/ResponseFactory.cc
+++ b/src/apps/StandAloneSimulator/ResponseFactory.cc
@@ -31,9 +31,13 @@
 #include "timeval-utils.hh"
 
 #include <iostream>
+#include <limits>
 
 using namespace PLEXIL;
 
+// In seconds; far more than could be waited for
+static double const MAX_DELAY = 1e12;
+
 bool ResponseFactory::parseTelemetryHeader(LineInStream &instream,
                                            timeval &timeDelay)
 {
@@ -47,6 +51,13 @@ bool ResponseFactory::parseTelemetryHeader(LineInStream &instream,
               << std::endl;
     return false;
   }
+  if (!(delay >= 0 && delay <= MAX_DELAY)) {
+    std::cerr << "Error: file " << instream.getFileName()
+              << ", line " << instream.getLineCount()
+              << ": telemetry delay out of range"
+              << std::endl;
+    return false;
+  }
   timeDelay = doubleToTimeval(delay);
 
   return true;
@@ -59,7 +70,9 @@ bool ResponseFactory::parseCommandResponseHeader(LineInStream &instream,
 {
   std::istringstream &linestream = instream.getLineStream();
   linestream >> commandIndex;
-  if (linestream.fail()) {
+  // Indices are stored as int; the stream accepts (and wraps) negative numbers
+  if (linestream.fail()
+      || commandIndex > (unsigned long) std::numeric_limits<int>::max()) {
     std::cerr << "Error: file " << instream.getFileName()
               << ", line " << instream.getLineCount()
               << ": parse error in command index"
@@ -67,7 +80,8 @@ bool ResponseFactory::parseCommandResponseHeader(LineInStream &instream,
     return false;
   }
   linestream >> numOfResponses;
-  if (linestream.fail()) {
+  if (linestream.fail()
+      || numOfResponses > (unsigned int) std::numeric_limits<int>::max()) {
     std::cerr << "Error: file " << instream.getFileName()
               << ", line " << instream.getLineCount()
               << ": parse error in command number of responses"
@@ -83,6 +97,13 @@ bool ResponseFactory::parseCommandResponseHeader(LineInStream &instream,
               << std::endl;
     return false;
   }
+  if (!(delay >= 0 && delay <= MAX_DELAY)) {
+    std::cerr << "Error: file " << instream.getFileName()
+              << ", line " << instream.getLineCount()
+              << ": command response delay out of range"
+              << std::endl;
+    return false;
+  }
   timeDelay = doubleToTimeval(delay);
 
   return true;
-- 
2.43.0


From 3a06bd0683442bba08f7dd0058fbeca1d1c4c149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:53 +0000
Subject: [PATCH 106/110] fix: the simulator took the entry after a command
 without responses for its value

---
 .../PlexilSimResponseFactory.cc               | 29 ++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc b/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc
index f2497c3..9e284eb 100644
--- a/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc
+++ b/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc
@@ -92,22 +92,25 @@ public:
     if (!parseCommandResponseHeader(instream, commandIndex, numOfResponses, timeDelay))
       return false;
 
+    // With no responses, there is no return value
     Value returnValue;
-    // Return value is on next line
-    instream.getLine(true);
-    if (instream.getLineStream().str().empty()) {
-      std::cerr << "Error: file " << instream.getFileName()
-                << ", line " << instream.getLineCount()
-                << ": premature end of file reading return value for "
-                << name
-                << std::endl;
-      return false;
+    if (numOfResponses) {
+      // Return value is on next line
+      instream.getLine(true);
+      if (instream.getLineStream().str().empty()) {
+        std::cerr << "Error: file " << instream.getFileName()
+                  << ", line " << instream.getLineCount()
+                  << ": premature end of file reading return value for "
+                  << name
+                  << std::endl;
+        return false;
+      }
+
+      // TODO: check IO errors
+      returnValue = parseReturnValue(instream, returnType);
+      // TODO: error handling
     }
 
-    // TODO: check IO errors
-    returnValue = parseReturnValue(instream, returnType);
-    // TODO: error handling
-
     debugMsg("PlexilSimResponseFactory:parseCommandReturn",
              " Adding command return for " << name
              << " index " << commandIndex
-- 
2.43.0


From 3ac29ca592a89037eb41304d719cc023d61405d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:53 +0000
Subject: [PATCH 107/110] fix: the simulator didn't accept the command handle
 values its documentation specifies

---
 src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc b/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc
index 9e284eb..2ab0305 100644
--- a/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc
+++ b/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc
@@ -26,6 +26,7 @@
 #include "PlexilSimResponseFactory.hh"
 
 #include "Agenda.hh"
+#include "CommandHandle.hh"
 #include "CommandResponseManager.hh"
 #include "GenericResponse.hh"
 #include "LineInStream.hh"
@@ -107,7 +108,13 @@ public:
       }
 
       // TODO: check IO errors
-      returnValue = parseReturnValue(instream, returnType);
+      // Can be a command handle value, whatever the command returns
+      PLEXIL::CommandHandleValue handle =
+        PLEXIL::parseCommandHandleValue(instream.getLineStream().str());
+      if (handle != PLEXIL::NO_COMMAND_HANDLE)
+        returnValue = Value(handle);
+      else
+        returnValue = parseReturnValue(instream, returnType);
       // TODO: error handling
     }
 
-- 
2.43.0


From 5e60cecc13342c215134565de4473c91b7a06ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:49 +0000
Subject: [PATCH 108/110] fix: accept an array variable as the initial value of
 an array

---
 src/xml-parser/ArrayVariableFactory.cc |  5 +++--
 src/xml-parser/parseNode.cc            | 13 ++++++++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/xml-parser/ArrayVariableFactory.cc b/src/xml-parser/ArrayVariableFactory.cc
index 14edd5c..09a2a93 100644
--- a/src/xml-parser/ArrayVariableFactory.cc
+++ b/src/xml-parser/ArrayVariableFactory.cc
@@ -125,8 +125,9 @@ namespace PLEXIL
           ValueType v = checkExpression(nodeId, temp);
         if (testTag(ARRAY_VAL_TAG, temp) || testTag(ARRAYVAR_TAG, temp)) {
           // ArrayValue, ArrayVariable cases
-          checkParserExceptionWithLocation(v == arrayType(eltType),
-                                           // || v == UNKNOWN_TYPE, // FIXME - for variables
+          // The type of a variable is checked when its reference is constructed.
+          checkParserExceptionWithLocation(v == arrayType(eltType)
+                                           || (v == UNKNOWN_TYPE && testTag(ARRAYVAR_TAG, temp)),
                                            temp,
                                            "Node \"" << nodeId
                                            << "\": " << valueTypeName(eltType)
diff --git a/src/xml-parser/parseNode.cc b/src/xml-parser/parseNode.cc
index ff6b127..94574f1 100644
--- a/src/xml-parser/parseNode.cc
+++ b/src/xml-parser/parseNode.cc
@@ -1025,7 +1025,18 @@ namespace PLEXIL
     ValueType initType = init->valueType();
     if (isArrayType(varType)) {
       int sizeSpec = decl.child(MAX_SIZE_TAG).text().as_int(-1);
-      if (isArrayType(init->valueType())) {
+      if (isArrayType(initType)) {
+        // Variable references are not checked in the first pass
+        if (initType != varType) {
+          if (garbage)
+            delete init;
+          reportParserExceptionWithLocation(decl,
+                                            "Node " << node->getNodeId()
+                                            << ", array variable \"" << varName 
+                                            << "\": Initialization type mismatch.\n"
+                                            << " Variable type is " << valueTypeName(varType)
+                                            << ", initializer is " << valueTypeName(initType));
+        }
         // Is array, is it constant?
         if (init->isConstant()) {
           // Check whether initial value is larger than declared size
-- 
2.43.0


From 803dd4e4b2a01473a2a6b5c25e6550b8a741262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:24 +0000
Subject: [PATCH 109/110] fix: reject a lookup with a constant unknown
 parameter as a parse error

A Lookup whose state name and parameters are all constants, one of them an
unknown literal, made parsePlan throw a PlanError. Callers expect a
ParserException for a bad plan, so such a plan ended the executive.
---
 src/xml-parser/LookupFactory.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/xml-parser/LookupFactory.cc b/src/xml-parser/LookupFactory.cc
index aec5174..455535f 100644
--- a/src/xml-parser/LookupFactory.cc
+++ b/src/xml-parser/LookupFactory.cc
@@ -232,6 +232,18 @@ namespace PLEXIL
           }
         }
       }
+
+      // A state which is constant must be known
+      bool stateIsConstant = stateName->isConstant();
+      bool stateIsKnown = stateName->isKnown();
+      for (size_t i = 0; i < nargs; ++i) {
+        stateIsConstant = stateIsConstant && (*argVec)[i]->isConstant();
+        stateIsKnown = stateIsKnown && (*argVec)[i]->isKnown();
+      }
+      checkParserExceptionWithLocation(stateIsKnown || !stateIsConstant,
+                                       expr,
+                                       "Lookup state is constant, but its name or some parameter is unknown");
+
       wasCreated = true;
       if (tolXml) {
         bool tolGarbage = false;
-- 
2.43.0


From 0c55d4fb3d44ad5724abc463bcad32ad8802314a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:46:51 +0000
Subject: [PATCH 110/110] fix: notify of a lookup whose thresholds are set by a
 change of its tolerance

When the tolerance of a LookupOnChange depends on the state looked up, it can
hear of a new value first. The lookup then set its thresholds around the new
value without notifying its listeners, and found the value within them when
it was told of it.
---
 src/intfc/Lookup.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index b2746f5..a57b6c9 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -1120,6 +1120,9 @@ namespace PLEXIL
           m_cachedValue.reset(val->clone()); // should be the usual case
         m_thresholds->setThresholds(val, m_tolerance);
         m_entry->updateThresholds(m_cachedState);
+        // The tolerance may have heard of a new value before this lookup.
+        // If so, the thresholds will hide the change when it gets here.
+        return true;
       }
 
       return valueChanged;
-- 
2.43.0

