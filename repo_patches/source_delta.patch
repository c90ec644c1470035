From b8ef6a172ae8750f255cb5b9b2da697925b39311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 001/124] fix: eint operators taking unsigned long divided by
 multiplying and wrapped large operands

---
 src/PLASMA/Utils/Number.hh | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/PLASMA/Utils/Number.hh b/src/PLASMA/Utils/Number.hh
index 3de61e7..9e20762 100644
--- a/src/PLASMA/Utils/Number.hh
+++ b/src/PLASMA/Utils/Number.hh
@@ -402,7 +402,7 @@ namespace EUROPA {
     eint(const unsigned int v) : m_v(static_cast<long>(v)) {
       handle_inf_constructor(int, m_v);
     }
-    eint(const unsigned long v) : m_v(static_cast<long>(v)) {
+    eint(const unsigned long v) : m_v(saturate(v)) {
       handle_inf_constructor(int, m_v);
     }
 
@@ -442,19 +442,19 @@ namespace EUROPA {
     inline eint& operator--() {handle_inf_unary_self(eint, m_v); --m_v; return *this;}
     inline eint operator--(int) {handle_inf_unary(eint, m_v); return eint(m_v--, true);}
     inline eint operator+(const int o) const {handle_inf_add(eint, m_v, o); op(eint, m_v, +, o);}
-    inline eint operator+(const unsigned long o) const {handle_inf_add(eint, m_v, o); op(eint, m_v, +, o);}
+    inline eint operator+(const unsigned long o) const {return operator+(saturate(o));}
     inline eint operator+(const basis_type o) const {handle_inf_add(eint, m_v, o); op(eint, m_v, +, o);}
     inline eint operator+(const eint o) const {return operator+(o.m_v);}
     inline eint operator-(const int o) const {handle_inf_sub(eint, m_v, o); op(eint, m_v, -, o);}
-    inline eint operator-(const unsigned long o) const {handle_inf_sub(eint, m_v, o); op(eint, m_v, -, o);}
+    inline eint operator-(const unsigned long o) const {return operator-(saturate(o));}
     inline eint operator-(const basis_type o) const {handle_inf_sub(eint, m_v, o); op(eint, m_v, -, o);}
     inline eint operator-(const eint o) const {return operator-(o.m_v);}
     inline eint operator*(const int o) const {handle_inf_mul(eint, m_v, o); op(eint, m_v, *, o);}
-    inline eint operator*(const unsigned long o) const {handle_inf_mul(eint, m_v, o); op(eint, m_v, *, o);}
+    inline eint operator*(const unsigned long o) const {return operator*(saturate(o));}
     inline eint operator*(const basis_type o) const {handle_inf_mul(eint, m_v, o); op(eint, m_v, *, o);}
     inline eint operator*(const eint o) const {return operator*(o.m_v);}
     inline eint operator/(const int o) const {handle_inf_div(eint, m_v, o); op(eint, m_v, /, o);}
-    inline eint operator/(const unsigned long o) const {handle_inf_mul(eint, m_v, o); op(eint, m_v, *, o);}
+    inline eint operator/(const unsigned long o) const {return operator/(saturate(o));}
     inline eint operator/(const basis_type o) const {handle_inf_div(eint, m_v, o); op(eint, m_v, /, o);}
     inline eint operator/(const eint o) const {return operator/(o.m_v);}
 
@@ -531,6 +531,14 @@ namespace EUROPA {
     friend struct std::numeric_limits<eint>;
 #endif //_MSC_VER
   
+    /**
+     * Values beyond the range of the basis type must not wrap to negative ones.
+     */
+    static basis_type saturate(const unsigned long v) {
+      return v > static_cast<unsigned long>(std::numeric_limits<basis_type>::max()) ?
+        std::numeric_limits<basis_type>::max() : static_cast<basis_type>(v);
+    }
+
     /**
      * Private constructors that don't do infinity checking
      */
-- 
2.43.0


From 699a1af35f59aec7ea151a345908eb3c6a197890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:16 +0000
Subject: [PATCH 002/124] fix: pow on edouble truncated the exponent to int and
 aborted on overflow

---
 src/PLASMA/Utils/Number.hh | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/Utils/Number.hh b/src/PLASMA/Utils/Number.hh
index 9e20762..186572d 100644
--- a/src/PLASMA/Utils/Number.hh
+++ b/src/PLASMA/Utils/Number.hh
@@ -791,7 +791,14 @@ inline EUROPA::eint numeric_limits<EUROPA::eint>::max() throw() {return cast_bas
 
 inline EUROPA::edouble abs(const EUROPA::edouble d) { return EUROPA::edouble(abs(d.m_v), true);}
 inline EUROPA::edouble sqrt(const EUROPA::edouble d) { handle_inf_unary(EUROPA::edouble, d); return EUROPA::edouble(sqrt(d.m_v), true);}
-inline EUROPA::edouble pow(const EUROPA::edouble d, const EUROPA::eint i) {return EUROPA::edouble(std::pow(d.m_v, static_cast<int>(i.m_v)));}
+inline EUROPA::edouble pow(const EUROPA::edouble d, const EUROPA::eint i) {
+  double temp = std::pow(d.m_v, static_cast<double>(i.m_v));
+  if(temp > numeric_limits<EUROPA::edouble>::infinity())
+    throw std::overflow_error("greater-than-infinity error");
+  else if(temp < numeric_limits<EUROPA::edouble>::minus_infinity())
+    throw std::underflow_error("less-than-minus-infinity error");
+  return EUROPA::edouble(temp, true);
+}
 inline EUROPA::edouble sin(const EUROPA::edouble d) {return EUROPA::edouble(std::sin(d.m_v), true);}
 inline EUROPA::edouble ceil(const EUROPA::edouble d) {return EUROPA::edouble(std::ceil(d.m_v), true);}
 inline EUROPA::edouble floor(const EUROPA::edouble d) {return EUROPA::edouble(std::floor(d.m_v), true);}
-- 
2.43.0


From 4db2a49ce7a1b566e42c069985b370d73ee8c606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:16 +0000
Subject: [PATCH 003/124] fix: incrementing or decrementing an edouble could
 step past infinity

---
 src/PLASMA/Utils/Number.hh | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/Utils/Number.hh b/src/PLASMA/Utils/Number.hh
index 186572d..1d40f21 100644
--- a/src/PLASMA/Utils/Number.hh
+++ b/src/PLASMA/Utils/Number.hh
@@ -605,10 +605,10 @@ namespace EUROPA {
     inline edouble operator+() const {return edouble(+m_v, true);}
     inline edouble operator-() const {return edouble(-m_v, true);}
     inline bool operator!() const {return m_v == 0.0;}
-    inline edouble& operator++() {handle_inf_unary_self(edouble, m_v); ++m_v; return *this;}
-    inline edouble operator++(int) {handle_inf_unary(edouble, m_v); return edouble(m_v++, true);}
-    inline edouble& operator--() {handle_inf_unary_self(edouble, m_v); --m_v; return *this;}
-    inline edouble operator--(int) {handle_inf_unary(edouble, m_v); return edouble(m_v--, true);}
+    inline edouble& operator++() {handle_inf_unary_self(edouble, m_v); ++m_v; saturate(); return *this;}
+    inline edouble operator++(int) {edouble old(m_v, true); operator++(); return old;}
+    inline edouble& operator--() {handle_inf_unary_self(edouble, m_v); --m_v; saturate(); return *this;}
+    inline edouble operator--(int) {edouble old(m_v, true); operator--(); return old;}
     inline edouble operator+(const edouble o) const {handle_inf_add(edouble, m_v, o.m_v); op(edouble, m_v, +, o.m_v);}
     inline edouble operator-(const edouble o) const {handle_inf_sub(edouble, m_v, o.m_v); op(edouble, m_v, -, o.m_v);}
     inline edouble operator*(const edouble o) const {handle_inf_mul(edouble, m_v, o.m_v); op(edouble, m_v, *, o.m_v);}
@@ -652,6 +652,14 @@ namespace EUROPA {
     //private version that doesn't do infinity checking
     edouble(const double v, bool) : m_v(v) {}
 
+    //a step past the last finite value is the infinity, never a value beyond it
+    inline void saturate() {
+      if(m_v > std::numeric_limits<edouble>::infinity())
+        m_v = cast_double(std::numeric_limits<edouble>::infinity());
+      else if(m_v < std::numeric_limits<edouble>::minus_infinity())
+        m_v = cast_double(std::numeric_limits<edouble>::minus_infinity());
+    }
+
 
     friend edouble operator+(const double o, const edouble e);
     friend edouble operator-(const double o, const edouble e);
-- 
2.43.0


From 781d560044ed02e13f09f4ce6fd295c0b0595ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 004/124] fix: LabelStr::getElement read past the end for an
 index without an element

---
 src/PLASMA/Utils/base/LabelStr.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PLASMA/Utils/base/LabelStr.cc b/src/PLASMA/Utils/base/LabelStr.cc
index 07ccfe4..726bc5a 100644
--- a/src/PLASMA/Utils/base/LabelStr.cc
+++ b/src/PLASMA/Utils/base/LabelStr.cc
@@ -189,6 +189,8 @@ LabelStr::LabelStr(edouble key)
 
     tokenize(srcStr, tokens, delim);
 
+    check_error(index < tokens.size(), "Element index out of range");
+
     LabelStr result(tokens[index]);
 
     return result;
-- 
2.43.0


From 610abc6fdddc4bc7f94702ee9765ae8f577b4fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 005/124] fix: TinyXML printed unknown tags to a file without
 their angle brackets

---
 src/PLASMA/TinyXml/base/tinyxml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/TinyXml/base/tinyxml.cpp b/src/PLASMA/TinyXml/base/tinyxml.cpp
index 4b938bb..5c4794c 100644
--- a/src/PLASMA/TinyXml/base/tinyxml.cpp
+++ b/src/PLASMA/TinyXml/base/tinyxml.cpp
@@ -1015,7 +1015,7 @@ void TiXmlUnknown::Print( FILE* cfile, int depth ) const
 {
         for ( int i=0; i<depth; i++ )
                 fprintf( cfile, "    " );
-        fprintf( cfile, "%s", value.c_str() );
+        fprintf( cfile, "<%s>", value.c_str() );
 }
 
 void TiXmlUnknown::StreamOut( TIXML_OSTREAM * stream ) const
-- 
2.43.0


From b1358eb0221b12fd26aca32f2356dba9952affa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 006/124] fix: TinyXML comments with markup characters changed
 when printed and read back

---
 src/PLASMA/TinyXml/base/tinyxml.cpp       |  4 +---
 src/PLASMA/TinyXml/base/tinyxmlparser.cpp | 15 +++++++++++----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/PLASMA/TinyXml/base/tinyxml.cpp b/src/PLASMA/TinyXml/base/tinyxml.cpp
index 5c4794c..55381dd 100644
--- a/src/PLASMA/TinyXml/base/tinyxml.cpp
+++ b/src/PLASMA/TinyXml/base/tinyxml.cpp
@@ -907,9 +907,7 @@ void TiXmlComment::Print( FILE* cfile, int depth ) const
 
 void TiXmlComment::StreamOut( TIXML_OSTREAM * stream ) const
 {
-        (*stream) << "<!--";
-        PutString( value, stream );
-        (*stream) << "-->";
+        (*stream) << "<!--" << value << "-->";          // No entities in a comment.
 }
 
 TiXmlNode* TiXmlComment::Clone() const
diff --git a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
index 8d6df65..549721d 100644
--- a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
+++ b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
@@ -972,14 +972,21 @@ const char* TiXmlComment::Parse( const char* p, TiXmlParsingData* data )
         const char* startTag = "<!--";
         const char* endTag   = "-->";
 
-        if ( !StringEqual( p, startTag, false ) )
+        if ( !p || !*p || !StringEqual( p, startTag, false ) )
         {
-                document->SetError( TIXML_ERROR_PARSING_COMMENT, p, data );
+                if ( document ) document->SetError( TIXML_ERROR_PARSING_COMMENT, p, data );
                 return 0;
         }
         p += strlen( startTag );
-        p = ReadText( p, &value, false, endTag, false );
-        return p;
+        // The text of a comment is kept as it is: there are no entities in it.
+        const char* end = strstr( p, endTag );
+        if ( !end )
+        {
+                if ( document ) document->SetError( TIXML_ERROR_PARSING_COMMENT, p, data );
+                return 0;
+        }
+        value.assign( p, static_cast<TIXML_STRING::size_type>( end - p ) );
+        return end + strlen( endTag );
 }
 
 
-- 
2.43.0


From 033ac33142b0b7af0d063278fbafba99ff2ed789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 007/124] fix: TinyXML read past the end of unterminated text
 and attribute values

---
 src/PLASMA/TinyXml/base/tinyxmlparser.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
index 549721d..9b3fa42 100644
--- a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
+++ b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
@@ -381,6 +381,9 @@ const char* TiXmlBase::ReadText(        const char* p,
                         }
                 }
         }
+        // The text was not terminated.
+        if ( !p || !*p )
+                return 0;
         return p + strlen( endTag );
 }
 
@@ -926,13 +929,12 @@ const char* TiXmlUnknown::Parse( const char* p, TiXmlParsingData* data )
                 ++p;
         }
 
-        if ( !p )
+        if ( !*p )
         {
                 if ( document ) document->SetError( TIXML_ERROR_PARSING_UNKNOWN, 0, 0 );
+                return 0;
         }
-        if ( *p == '>' )
-                return p+1;
-        return p;
+        return p+1;
 }
 
 #ifdef TIXML_USE_STL
-- 
2.43.0


From 01ad982d7ced214f91d038636b5a9da28df6c763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 008/124] fix: TinyXML aborted on a truncated declaration

---
 src/PLASMA/TinyXml/base/tinyxmlparser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
index 9b3fa42..2855fa4 100644
--- a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
+++ b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
@@ -1141,6 +1141,8 @@ const char* TiXmlDeclaration::Parse( const char* p, TiXmlParsingData* data )
                 }
 
                 p = SkipWhiteSpace( p );
+                if ( !p || !*p )
+                        break;
                 if ( StringEqual( p, "version", true ) )
                 {
                         TiXmlAttribute attrib;
@@ -1166,6 +1168,7 @@ const char* TiXmlDeclaration::Parse( const char* p, TiXmlParsingData* data )
                                 ++p;
                 }
         }
+        if ( document ) document->SetError( TIXML_ERROR_PARSING_DECLARATION, 0, 0 );
         return 0;
 }
 
-- 
2.43.0


From ac01b0bad230110b7f547703e197720a1f0ab473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 009/124] fix: TinyXML stopped at a repeated attribute without
 reporting an error

---
 src/PLASMA/TinyXml/base/tinyxmlparser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
index 2855fa4..9573db1 100644
--- a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
+++ b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
@@ -814,6 +814,7 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data )
                         if ( node )
                         {
                                 node->SetValue( attrib->Value() );
+                                if ( document ) document->SetError( TIXML_ERROR_PARSING_ELEMENT, pErr, data );
                                 delete attrib;
                                 return 0;
                         }
-- 
2.43.0


From 39a06a08a03035c6b4f5339e4d058cace3c55013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 010/124] fix: TinyXML closed a comment starting with > too
 early when reading a stream

---
 src/PLASMA/TinyXml/base/tinyxmlparser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
index 9573db1..1e41726 100644
--- a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
+++ b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
@@ -947,7 +947,11 @@ void TiXmlComment::StreamIn( TIXML_ISTREAM * in, TIXML_STRING * tag )
           in->get(c);      
           (*tag) += c;
 
+          // The dashes of the opening "<!--" do not close the comment.
+          const TIXML_STRING::size_type start = tag->rfind( "<!--" );
           if ( c == '>' 
+               && start != TIXML_STRING::npos
+               && tag->length() - start >= 7
                && tag->at( tag->length() - 2 ) == '-'
                && tag->at( tag->length() - 3 ) == '-' )
           {
-- 
2.43.0


From 74b9a23d7483b749c023db7c6ae2264f24d564aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 011/124] fix: TinyXML aborted on reading an element of a lone
 <

---
 src/PLASMA/TinyXml/base/tinyxmlparser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
index 1e41726..9435d2f 100644
--- a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
+++ b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
@@ -732,6 +732,11 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data )
 
         // Read the name.
         const char* pErr = p;
+        if ( !p )
+        {
+                if ( document ) document->SetError( TIXML_ERROR_FAILED_TO_READ_ELEMENT_NAME, pErr, data );
+                return 0;
+        }
 
     p = ReadName( p, &value );
         if ( !p || !*p )
-- 
2.43.0


From 8dbacae528796f4e2af90f547318f43fee5d59fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:27 +0000
Subject: [PATCH 012/124] fix: TinyXML accepted an unclosed element followed by
 blanks

---
 src/PLASMA/TinyXml/base/tinyxmlparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
index 9435d2f..da692c5 100644
--- a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
+++ b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
@@ -882,7 +882,7 @@ const char* TiXmlElement::ReadValue( const char* p, TiXmlParsingData* data )
                 p = SkipWhiteSpace( p );
         }
 
-        if ( !p )
+        if ( !p || !*p )
         {
                 if ( document ) document->SetError( TIXML_ERROR_READING_ELEMENT_VALUE, 0, 0 );
         }       
-- 
2.43.0


From 7bfbbc20687b0b19d58b060a81138aff1b393325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:32 +0000
Subject: [PATCH 013/124] fix: an unsigned long operand beyond the range of
 eint could give a finite result

---
 src/PLASMA/Utils/Number.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/Utils/Number.hh b/src/PLASMA/Utils/Number.hh
index 1d40f21..dbac435 100644
--- a/src/PLASMA/Utils/Number.hh
+++ b/src/PLASMA/Utils/Number.hh
@@ -532,11 +532,11 @@ namespace EUROPA {
 #endif //_MSC_VER
   
     /**
-     * Values beyond the range of the basis type must not wrap to negative ones.
+     * Values beyond the range are infinite, they must not wrap to negative ones.
      */
     static basis_type saturate(const unsigned long v) {
-      return v > static_cast<unsigned long>(std::numeric_limits<basis_type>::max()) ?
-        std::numeric_limits<basis_type>::max() : static_cast<basis_type>(v);
+      const basis_type inf = std::numeric_limits<eint>::infinity().m_v;
+      return v > static_cast<unsigned long>(inf) ? inf : static_cast<basis_type>(v);
     }
 
     /**
-- 
2.43.0


From 16c4b808ac28200c4af98b5804d2631c96341626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:37 +0000
Subject: [PATCH 014/124] fix: intersecting a boolean domain with numeric
 bounds lost false and kept values outside the bounds

---
 src/PLASMA/ConstraintEngine/component/Domains.cc | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index 9d7897b..ef7505a 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -1229,16 +1229,6 @@ edouble IntervalIntDomain::convert(const edouble& value) const {
   }
 
   bool BoolDomain::intersect(edouble lb, edouble ub) {
-    edouble boolLb = lb;
-    edouble boolUb = ub;
-    if(boolLb > boolUb) {
-      boolLb = boolUb;
-      boolUb = lb;
-    }
-    if(boolLb != 0.0)
-      boolLb = 1.0;
-    if(boolUb != 0.0)
-      boolUb = 1.0;
-    return IntervalIntDomain::intersect(boolLb, boolUb);
+    return IntervalIntDomain::intersect(lb, ub);
   }
 }
-- 
2.43.0


From b82fc81748d96614386038115673cbf028eb3277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:58 +0000
Subject: [PATCH 015/124] fix: listing the values of an emptied boolean domain
 failed

---
 src/PLASMA/ConstraintEngine/component/Domains.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index ef7505a..7d37c1d 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -1154,6 +1154,8 @@ edouble IntervalIntDomain::convert(const edouble& value) const {
 
   void IntervalIntDomain::getValues(std::list<edouble>& results) const {
     check_error(isFinite());
+    if (isEmpty())
+      return;
     eint lb = cast_int(check(m_lb));
     eint ub = cast_int(check(m_ub));
     for (eint i = lb; i <= ub; i++)
-- 
2.43.0


From 3999e93c8fd6432e95bb4484330b917409de9b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 016/124] fix: assigning an interval domain took the upper
 bound for both bounds

---
 src/PLASMA/ConstraintEngine/component/Domains.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index 7d37c1d..11aee05 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -660,9 +660,9 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
   Domain& IntervalDomain::operator=(const Domain& dom) {
     safeComparison(*this, dom);
     check_error(m_listener.isNoId());
-    m_lb = dom.getUpperBound();
+    m_lb = dom.getLowerBound();
     m_ub = dom.getUpperBound();
-    m_closed = dom.isFinite();
+    m_closed = dom.isClosed();
     return(*this);
   }
 
-- 
2.43.0


From d3d6efa9ae9ac70e978af60d41cb2369a90fdc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:48 +0000
Subject: [PATCH 017/124] fix: equating an enumeration did not report a change
 to the enumeration alone

---
 src/PLASMA/ConstraintEngine/component/Domains.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index 11aee05..277ec1f 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -167,8 +167,11 @@ EnumeratedDomain::EnumeratedDomain(const Domain& org)
 		  return true;
 
 	  // Have to intersect again for the case of mixed types (enumeration and interval)
-	  if(intersect(dom) && !isEmpty())
-		  changed = dom.intersect(*this) || changed;
+	  if(intersect(dom)) {
+		  changed = true;
+		  if(!isEmpty())
+			  dom.intersect(*this);
+	  }
 
 	  return changed;
   }
-- 
2.43.0


From 524e9e32a5578bcd9bfbfd2cdd7791f39f6bb359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:14 +0000
Subject: [PATCH 018/124] fix: comparing an interval with an enumeration or a
 domain of other resolution gave wrong answers

---
 .../ConstraintEngine/component/Domains.cc     | 37 ++++++++++++++++---
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index 277ec1f..ae345a3 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -710,8 +710,13 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
   bool IntervalDomain::operator==(const Domain& dom) const {
     safeComparison(*this, dom);
 
-    return(eq(m_lb, dom.getLowerBound()) &&
-           eq(m_ub, dom.getUpperBound()) &&
+    if (dom.isEnumerated())
+      return(dom == *this);
+
+    // Compare with the finer of the two resolutions
+    const Domain& finer = (dom.minDelta() < minDelta() ? dom : *this);
+    return(finer.eq(m_lb, dom.getLowerBound()) &&
+           finer.eq(m_ub, dom.getUpperBound()) &&
 	   Domain::operator==(dom));
   }
 
@@ -723,9 +728,24 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
     safeComparison(*this, dom);
     check_error(!isOpen());
     check_error(!dom.isEmpty());
+    if (dom.isEnumerated()) {
+      if (dom.isOpen())
+        return true;
+      if (!isFinite() || getSize() > dom.getSize())
+        return false;
+      std::list<edouble> values;
+      getValues(values);
+      for (std::list<edouble>::const_iterator it = values.begin(); it != values.end(); ++it)
+        if (!dom.isMember(*it))
+          return false;
+      return true;
+    }
+
+    // Compare with the finer of the two resolutions
+    const Domain& finer = (dom.minDelta() < minDelta() ? dom : *this);
     bool result = ((isFinite() || dom.isInfinite()) &&
-                   leq(m_ub, dom.getUpperBound()) &&
-                   leq(dom.getLowerBound(), m_lb));
+                   finer.leq(m_ub, dom.getUpperBound()) &&
+                   finer.leq(dom.getLowerBound(), m_lb));
     return result;
   }
 
@@ -734,14 +754,19 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
     check_error(!isOpen());
     check_error(!dom.isEmpty());
 
+    if (dom.isEnumerated())
+      return dom.intersects(*this);
+
+    // Compare with the finer of the two resolutions
+    const Domain& finer = (dom.minDelta() < minDelta() ? dom : *this);
     edouble ub = dom.getUpperBound();
 
-    if( lt(ub, m_lb) )
+    if( finer.lt(ub, m_lb) )
       return false;
 
     edouble lb = dom.getLowerBound();
 
-    if( lt(m_ub, lb))
+    if( finer.lt(m_ub, lb))
       return false;
 
     return true;
-- 
2.43.0


From dc8f7da3da0d81187f3f212d333b1658e907433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:51 +0000
Subject: [PATCH 019/124] fix: intersecting an interval with an open
 enumeration restricted it to the listed values

---
 src/PLASMA/ConstraintEngine/component/Domains.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index ae345a3..d015485 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -621,6 +621,11 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
     safeComparison(*this, dom);
     check_error(dom.isOpen() || !dom.isEmpty(), dom.toString());
     checkError(isOpen() || !isEmpty(), toString());
+
+    // If the given domain is open, then there is no meaningful intersection to apply
+    if (dom.isOpen())
+      return false;
+
     edouble lb, ub;
     dom.getBounds(lb, ub);
     return(intersect(lb, ub));
@@ -1211,6 +1216,10 @@ edouble IntervalIntDomain::convert(const edouble& value) const {
   }
 
   bool IntervalIntDomain::intersect(const Domain& dom) {
+    // If the given domain is open, then there is no meaningful intersection to apply
+    if (dom.isOpen())
+      return false;
+
     return intersect(dom.getLowerBound(), dom.getUpperBound());
   }
 
@@ -1255,6 +1264,10 @@ edouble IntervalIntDomain::convert(const edouble& value) const {
   }
 
   bool BoolDomain::intersect(const Domain& dom) {
+    // If the given domain is open, then there is no meaningful intersection to apply
+    if (dom.isOpen())
+      return false;
+
     return intersect(dom.getLowerBound(), dom.getUpperBound());
   }
 
-- 
2.43.0


From 74f627cf9986b446931d6275a602ea67e89c3a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:43 +0000
Subject: [PATCH 020/124] fix: intersecting an interval with values of a
 coarser domain kept values outside both

---
 .../ConstraintEngine/component/Domains.cc     | 31 +++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index d015485..12dcfe3 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -628,6 +628,31 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
 
     edouble lb, ub;
     dom.getBounds(lb, ub);
+
+    // Only the values of an enumeration that are in this interval can bound the result.
+    if (dom.isEnumerated()) {
+      std::list<edouble> values;
+      dom.getValues(values);
+      bool found = false;
+      for (std::list<edouble>::const_iterator it = values.begin(); it != values.end(); ++it) {
+        if (!isMember(*it))
+          continue;
+        lb = (found ? std::min(lb, *it) : *it);
+        ub = (found ? std::max(ub, *it) : *it);
+        found = true;
+      }
+      if (!found) {
+        empty();
+        return(true);
+      }
+    }
+    else if (dom.minDelta() > minDelta()) {
+      // Only the whole numbers in this interval can bound the result.
+      if (m_lb > lb && m_lb < PLUS_INFINITY)
+        lb = std::ceil(m_lb - minDelta());
+      if (m_ub < ub && m_ub > MINUS_INFINITY)
+        ub = std::floor(m_ub + minDelta());
+    }
     return(intersect(lb, ub));
   }
 
@@ -1220,6 +1245,9 @@ edouble IntervalIntDomain::convert(const edouble& value) const {
     if (dom.isOpen())
       return false;
 
+    if (dom.isEnumerated())
+      return IntervalDomain::intersect(dom);
+
     return intersect(dom.getLowerBound(), dom.getUpperBound());
   }
 
@@ -1268,6 +1296,9 @@ edouble IntervalIntDomain::convert(const edouble& value) const {
     if (dom.isOpen())
       return false;
 
+    if (dom.isEnumerated())
+      return IntervalDomain::intersect(dom);
+
     return intersect(dom.getLowerBound(), dom.getUpperBound());
   }
 
-- 
2.43.0


From a8ebe89e15b43513853076b58c2a6e7cab49c66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:43 +0000
Subject: [PATCH 021/124] fix: the absolute value constraint failed on an
 emptied domain

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 68692eb..cf40d40 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -2202,7 +2202,8 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
       ub = std::max(std::abs(m_y.getLowerBound()), m_y.getUpperBound());
     }
 
-    m_x.intersect(IntervalDomain(lb, ub));
+    if(m_x.intersect(IntervalDomain(lb, ub)) && m_x.isEmpty())
+      return;
     lb = m_x.getLowerBound();
     ub = m_x.getUpperBound();
 
-- 
2.43.0


From 1c143ec474e115869cd07fe3091354572a7c50e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:10 +0000
Subject: [PATCH 022/124] fix: a constraint on a one-value open variable was
 dropped as redundant

---
 src/PLASMA/ConstraintEngine/base/Constraint.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/base/Constraint.cc b/src/PLASMA/ConstraintEngine/base/Constraint.cc
index a7168e6..48d3daa 100644
--- a/src/PLASMA/ConstraintEngine/base/Constraint.cc
+++ b/src/PLASMA/ConstraintEngine/base/Constraint.cc
@@ -247,7 +247,7 @@ Constraint::getModifiedVariables(const ConstrainedVariableId) const {
 
     for(std::vector<ConstrainedVariableId>::const_iterator it = m_variables.begin(); it != m_variables.end(); ++it){
       ConstrainedVariableId v = *it;
-      if(!v->baseDomain().isSingleton()){
+      if(!v->baseDomain().isSingleton() || v->baseDomain().isOpen()){
 	debugMsg("Constraint:testIsRedundant", v->toString() << " has base domain of " << v->baseDomain());
 	return false;
       }
-- 
2.43.0


From 371f23d762cdeb52427a3316a9879da747be556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:10 +0000
Subject: [PATCH 023/124] fix: an interval of reals within integer bounds was
 taken for a subset of the integers

---
 src/PLASMA/ConstraintEngine/component/Domains.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index 12dcfe3..5491b74 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -771,6 +771,10 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
       return true;
     }
 
+    // The values of an interval with more than one of them lie closer than those of a coarser domain
+    if (minDelta() < dom.minDelta() && !isEmpty())
+      return isSingleton() && dom.isMember(m_lb);
+
     // Compare with the finer of the two resolutions
     const Domain& finer = (dom.minDelta() < minDelta() ? dom : *this);
     bool result = ((isFinite() || dom.isInfinite()) &&
-- 
2.43.0


From b348b2014233de41f5ffbaeb4f8f44ffa6114460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:10 +0000
Subject: [PATCH 024/124] fix: test constraints took a one-value open domain
 for an assigned variable

---
 .../ConstraintEngine/component/Constraints.cc | 38 ++++++++++++++++---
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index cf40d40..2d342f7 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -11,6 +11,32 @@
 
 namespace EUROPA {
 
+namespace {
+/**
+ * @brief True if the domain holds one value and can get no other: an open domain may still grow.
+ */
+bool isFixed(const Domain& dom) {
+  return dom.isClosed() && dom.isSingleton();
+}
+
+/**
+ * @brief True if all the values of the domain are integers by its type.
+ */
+bool isIntegral(const Domain& dom) {
+  return dom.minDelta() >= 1;
+}
+
+/**
+ * @brief True if there is an integer between the bounds of the domain.
+ */
+bool hasInteger(const Domain& dom) {
+  edouble lb, ub;
+  dom.getBounds(lb, ub);
+  return std::abs(lb) >= PLUS_INFINITY || std::abs(ub) >= PLUS_INFINITY ||
+      std::ceil(lb - EPSILON) <= ub + EPSILON;
+}
+}
+
   UnaryConstraint::UnaryConstraint(const Domain& dom,
 				   const ConstrainedVariableId var)
     : Constraint("UNARY", "Default", var->getConstraintEngine(), makeScope(var)),
@@ -1872,8 +1898,8 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
 
     debugMsg("TestEQ:handleExecute", "comparing " << m_arg1.toString() << " with " << m_arg2.toString());
 
-    if(m_arg1.isSingleton() &&
-       m_arg2.isSingleton() &&
+    if(isFixed(m_arg1) &&
+       isFixed(m_arg2) &&
        m_arg1.intersects(m_arg2)) // Exactly equal with no flexibility
        m_test.remove(0);
     else if(!m_arg1.intersects(m_arg2)) // No intersection so they cannot be equal
@@ -1904,7 +1930,7 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
 
     debugMsg("TestSingleton:handleExecute", "comparing " << m_arg1.toString() << " setting " << m_test.toString());
 
-    if(m_arg1.isSingleton()) // it is a singleton
+    if(isFixed(m_arg1)) // it is a singleton
        m_test.remove(0); // set the test to be true
     //TODO: what about:
     //m_test is a singleton, m_arg1 is not.
@@ -1929,7 +1955,7 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
 
     debugMsg("TestSingleton:handleExecute", "comparing " << m_arg1.toString() << " setting " << m_test.toString());
 
-    if(m_arg1.isSingleton() && getScope()[1]->isSpecified())// it is a singleton
+    if(isFixed(m_arg1) && getScope()[1]->isSpecified())// it is a singleton
        m_test.remove(0); // set the test to be true
     //TODO: what about:
     //m_test is a singleton, m_arg1 is not.
@@ -1951,8 +1977,8 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
 
     debugMsg("TestNEQ:handleExecute", "comparing " << m_arg1.toString() << " with " << m_arg2.toString());
 
-    if(m_arg1.isSingleton() &&
-       m_arg2.isSingleton()) {
+    if(isFixed(m_arg1) &&
+       isFixed(m_arg2)) {
       if (m_arg1.intersects(m_arg2)) { // They are singletons and are equal, return false.
 	m_test.remove(1);
       } else {
-- 
2.43.0


From 06ecf6731fcfaf8c373f5105228b8b0979eddb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:10 +0000
Subject: [PATCH 025/124] fix: addEq on mixed integers and reals reported
 inconsistencies that are none

---
 .../ConstraintEngine/component/Constraints.cc     | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 2d342f7..86a34ef 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -190,10 +190,19 @@ bool hasInteger(const Domain& dom) {
      * is not satisfied. The motivating case for this: A:Int[-10,10] +
      * B:Int[-10,10] == C:Real[0.01, 0.99].
      */
-    if (m_z.isInterval() &&
-	(!m_z.isMember(Infinity::plus(yMax, xMin, zMin)) ||
-	 !m_z.isMember(Infinity::plus(yMin, xMax, zMin))))
+    const bool xInt = isIntegral(m_x), yInt = isIntegral(m_y), zInt = isIntegral(m_z);
+    if (xInt == yInt && yInt == zInt) {
+      if (m_z.isInterval() &&
+          (!m_z.isMember(Infinity::plus(yMax, xMin, zMin)) ||
+           !m_z.isMember(Infinity::plus(yMin, xMax, zMin))))
+        m_z.empty();
+    }
+    else if (xInt && yInt && !zInt && !hasInteger(m_z))
       m_z.empty();
+    else if (xInt && zInt && !yInt && !hasInteger(m_y))
+      m_y.empty();
+    else if (yInt && zInt && !xInt && !hasInteger(m_x))
+      m_x.empty();
   }
 
   /*********** MultEqualConstraint: X*Y = Z *************/
-- 
2.43.0


From 93466f8207aec2c782145ced6129445343a28d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:10 +0000
Subject: [PATCH 026/124] fix: subsetOf ignored later assignments outside the
 superset

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 86a34ef..359a9ab 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -618,10 +618,13 @@ bool updateDivBounds(IntervalDomain& domZ,
 bool SubsetOfConstraint::canIgnore(const ConstrainedVariableId,
                                    unsigned int argIndex,
                                    const DomainListener::ChangeType& changeType){
-  // If not a relaxation, and if it is the first argument, then we can ignore it as it will already be a subset
+  // If not a relaxation, and if it is the first argument, then we can ignore it as it will already be a subset,
+  // unless it is an interval that cannot leave out all the values which are not in the superset
   if(changeType == DomainListener::RESET ||
      changeType == DomainListener::RELAXED ||
-     argIndex == 1)
+     argIndex == 1 ||
+     (m_currentDomain.isInterval() &&
+      (m_superSetDomain.isEnumerated() || m_superSetDomain.minDelta() > m_currentDomain.minDelta())))
     return false;
   else
     return true;
-- 
2.43.0


From 82bcf882850651c6f5edd6fdfd62e350e11f695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:11 +0000
Subject: [PATCH 027/124] fix: neq on mixed integers and reals removed the
 wrong values

---
 .../ConstraintEngine/component/Constraints.cc    | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 359a9ab..25aa0af 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -704,14 +704,14 @@ bool LessThanEqualConstraint::testIsRedundant(const ConstrainedVariableId var) c
     // Discontinue if either domain is open.
     //if (domx.isOpen() || domy.isOpen())
     //  return;
-    check_error(!domx.isEmpty() && !domy.isEmpty());
+    check_error((domx.isOpen() || !domx.isEmpty()) && (domy.isOpen() || !domy.isEmpty()));
 
     if (!checkAndRemove(domx, domy))
       checkAndRemove(domy, domx);
   }
 
   bool NotEqualConstraint::checkAndRemove(const Domain& domx, Domain& domy) {
-    if (!domx.isSingleton())
+    if (!isFixed(domx))
       return(false);
     edouble value = domx.getSingletonValue();
     // Not present, so nothing to remove.
@@ -733,14 +733,14 @@ bool LessThanEqualConstraint::testIsRedundant(const ConstrainedVariableId var) c
       return(true);
     }
 
-    if (domx.compareEqual(domx.getSingletonValue(), domy.getLowerBound())) {
-      edouble low = domx.getSingletonValue() + domx.minDelta();
-      domy.intersect(IntervalDomain(low, domy.getUpperBound()));
+    if (domy.compareEqual(domx.getSingletonValue(), domy.getLowerBound())) {
+      edouble low = domx.getSingletonValue() + domy.minDelta();
+      domy.intersect(low, domy.getUpperBound());
       return(true);
     }
-    if (domx.compareEqual(domx.getSingletonValue(), domy.getUpperBound())) {
-      edouble hi = domx.getSingletonValue() - domx.minDelta();
-      domy.intersect(IntervalDomain(domy.getLowerBound(), hi));
+    if (domy.compareEqual(domx.getSingletonValue(), domy.getUpperBound())) {
+      edouble hi = domx.getSingletonValue() - domy.minDelta();
+      domy.intersect(domy.getLowerBound(), hi);
       return(true);
     }
     /** COULD SPECIAL CASE INTERVAL INT DOMAIN, BUT NOT WORTH IT PROBABLY **/
-- 
2.43.0


From 8ff474a33651ed6c2f6979b0db063026bc4cccec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:11 +0000
Subject: [PATCH 028/124] fix: lt on mixed integers and reals removed values of
 solutions

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 25aa0af..b94207c 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -790,15 +790,17 @@ bool NotEqualConstraint::canIgnore(const ConstrainedVariableId variable,
 
     debugMsg("LessThanConstraint:handleExecute", "Computing " << domx.toString() << " < " << domy.toString() << " x.minDelta = " <<
 	     domx.minDelta() << " y.minDelta = " << domy.minDelta());
+    // The smallest distance between two different values of the two domains
+    const edouble delta = std::min(domx.minDelta(), domy.minDelta());
     if(domx.getUpperBound() >= domy.getUpperBound() &&
        domy.getUpperBound() < PLUS_INFINITY &&
-       domx.intersect(domx.getLowerBound(), domy.getUpperBound() - domx.minDelta()) &&
+       domx.intersect(domx.getLowerBound(), domy.getUpperBound() - delta) &&
        domx.isEmpty())
       return;
 
     if(domy.getLowerBound() <= domx.getLowerBound() &&
        domx.getLowerBound() > MINUS_INFINITY &&
-       domy.intersect(domx.getLowerBound() + domy.minDelta(), domy.getUpperBound()) &&
+       domy.intersect(domx.getLowerBound() + delta, domy.getUpperBound()) &&
        domy.isEmpty())
       return;
 
-- 
2.43.0


From 7ac28c0986c01dc357812f8768028a2e63c96001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:11 +0000
Subject: [PATCH 029/124] fix: condEq missed unequal reals and emptied domains

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index b94207c..c20679c 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1115,7 +1115,8 @@ EqualSumConstraint::EqualSumConstraint(const std::string& name,
           if (i == 1)
             single = current.getSingletonValue();
           else
-            if (std::abs(single - current.getSingletonValue()) >= getCurrentDomain(m_variables[1]).minDelta()) {
+            if (std::abs(single - current.getSingletonValue()) >=
+                std::min(getCurrentDomain(m_variables[1]).minDelta(), current.minDelta())) {
               // Two singletons with different values: can't be all same, so:
               canProveTrue = false;
               boolDom.remove(true);
@@ -1199,8 +1200,9 @@ EqualSumConstraint::EqualSumConstraint(const std::string& name,
         for (bool changedOne = true; changedOne; ) {
           changedOne = false;
           for (i = 2; i < ARG_COUNT; i++) {
-            changedOne = dom1.equate(getCurrentDomain(m_variables[i])) || changedOne;
-            if (dom1.isEmpty())
+            Domain& domi = getCurrentDomain(m_variables[i]);
+            changedOne = dom1.equate(domi) || changedOne;
+            if ((dom1.isClosed() && dom1.isEmpty()) || (domi.isClosed() && domi.isEmpty()))
               return; // inconsistent: cannot all be the same but condition var requires they are.
           }
         }
-- 
2.43.0


From 6f2fd6b40da96db7084f780f1fdd4d25377a75d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:11 +0000
Subject: [PATCH 030/124] fix: allDiff and condAllDiff built wrong unions and
 miscounted open domains

---
 .../ConstraintEngine/component/Constraints.cc     | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index c20679c..12d705a 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -3,6 +3,7 @@
 #include "ConstraintType.hh"
 #include "ConstrainedVariable.hh"
 #include "Domains.hh"
+#include "DataTypes.hh"
 #include "Utils.hh"
 #include "Debug.hh"
 #include "CESchema.hh"
@@ -1267,8 +1268,10 @@ void addToUnion(Domain **unionOfDomains,
       if (it2 == newMembers.end())
         newMembers.push_back(*it);
     }
+    // Numbers of any resolution have to fit in the union
+    const bool numeric = (*unionOfDomains)->isNumeric() || (*unionOfDomains)->isBool();
     newUnion = new EnumeratedDomain(
-        (*unionOfDomains)->getDataType(),
+        numeric ? FloatDT::instance() : (*unionOfDomains)->getDataType(),
         newMembers);
 
     // Could just add to current unionOfDomains rather than failing here, but
@@ -1283,7 +1286,9 @@ void addToUnion(Domain **unionOfDomains,
   edouble toAddMin, toAddMax, newMin, newMax;
   domToAdd.getBounds(toAddMin, toAddMax);
   (*unionOfDomains)->getBounds(newMin, newMax);
-  bool changing = false;
+  const edouble delta = std::min((*unionOfDomains)->minDelta(), domToAdd.minDelta());
+  // An enumeration, or an interval of coarser values, does not hold all the values added even if its bounds do.
+  bool changing = (*unionOfDomains)->isEnumerated() || delta < (*unionOfDomains)->minDelta();
   if (toAddMin < newMin) {
     newMin = toAddMin;
     changing = true;
@@ -1293,7 +1298,7 @@ void addToUnion(Domain **unionOfDomains,
     changing = true;
   }
   if (changing) {
-    if((*unionOfDomains)->minDelta() < 1.0)
+    if(delta < 1.0)
       newUnion = new IntervalDomain(newMin, newMax);
     else
       newUnion = new IntervalIntDomain(static_cast<eint>(newMin), static_cast<eint>(newMax));
@@ -1329,6 +1334,7 @@ void addToUnion(Domain **unionOfDomains,
     unsigned int firstNonDynamic = 0;
     unsigned int firstDynamic = 0;
     unsigned int i = 1;
+    unsigned int inUnion = 0;
     Domain* unionOfOthers = 0;
     for ( ; i < ARG_COUNT; i++) {
       Domain& current(getCurrentDomain(m_variables[i]));
@@ -1338,6 +1344,7 @@ void addToUnion(Domain **unionOfDomains,
           firstDynamic = i;
         continue;
       }
+      inUnion++;
       if (firstNonDynamic == 0)
         firstNonDynamic = i;
       if (unionOfOthers == 0) {
@@ -1356,7 +1363,7 @@ void addToUnion(Domain **unionOfDomains,
           canProveTrue = false;
         // Add members of current to unionOfOthers "usefully".
         addToUnion(&unionOfOthers, current);
-        if (unionOfOthers->isFinite() && (unionOfOthers->getSize()) < i) {
+        if (unionOfOthers->isFinite() && (unionOfOthers->getSize()) < inUnion) {
           // At least two of the variables must have same value.
           boolDom.remove(true);
           canProveTrue = false;
-- 
2.43.0


From 942d15d7f1f7a41bef1be9b7a253b08493729bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:11 +0000
Subject: [PATCH 031/124] fix: testNeq removed values from intervals and
 emptied domains

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 12d705a..438bd9b 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -2011,14 +2011,11 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
 
     if(m_test.isSingleton()) {
       if(m_test.getSingletonValue() == true) { //Enforce inequality
-	if(m_arg1.isSingleton()) {
-	  m_arg2.remove(m_arg1.getSingletonValue());
-	}
-	if(m_arg2.isSingleton()) {
-	  m_arg1.remove(m_arg2.getSingletonValue());
-	}
+	if(!NotEqualConstraint::checkAndRemove(m_arg1, m_arg2))
+	  NotEqualConstraint::checkAndRemove(m_arg2, m_arg1);
       } else { //Enforce equality
-	m_arg2.intersect(m_arg1);
+	if(m_arg2.intersect(m_arg1) && m_arg2.isEmpty())
+	  return;
 	m_arg1.intersect(m_arg2);
       }
     }
-- 
2.43.0


From dd14ec592bce1250fc0d91902a12c505552dd777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:11 +0000
Subject: [PATCH 032/124] fix: absolute value of mixed integers and reals
 removed values of solutions

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 438bd9b..96a75ec 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -2260,12 +2260,14 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
     if(lb == 0 && m_y.isMember(-ub) && m_y.isMember(ub))
       m_y.intersect(IntervalDomain(-ub, ub));
 
-    if((m_y.isMember(lb) || m_y.isMember(ub)) && (m_y.isMember(-lb) || m_y.isMember(-ub)))
+    const bool positive = m_y.getLowerBound() <= ub && lb <= m_y.getUpperBound();
+    const bool negative = m_y.getLowerBound() <= -lb && -ub <= m_y.getUpperBound();
+    if(positive && negative)
       return;
 
-    if(m_y.isMember(lb) || m_y.isMember(ub))
+    if(positive)
       m_y.intersect(IntervalDomain(lb, ub));
-    else if(m_y.isMember(-lb) || m_y.isMember(-ub))
+    else
       m_y.intersect(IntervalDomain(-ub, -lb));
   }
 
-- 
2.43.0


From 73219087e761407308dbff85f26fb2587f3bcacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:11 +0000
Subject: [PATCH 033/124] fix: calcDistance of enumerated coordinates computed
 a wrong lower bound

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 96a75ec..eae00e3 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -2366,7 +2366,7 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
     dx.insert(std::abs(m_x1.getLowerBound() - m_x2.getUpperBound()));
     dx.insert(std::abs(m_x1.getUpperBound() - m_x2.getLowerBound()));
     dx.insert(std::abs(m_x1.getUpperBound() - m_x2.getUpperBound()));
-    if(m_x1.intersects(m_x2))
+    if(m_x1.getLowerBound() <= m_x2.getUpperBound() && m_x2.getLowerBound() <= m_x1.getUpperBound())
       dx.insert(0.0);
     dx.close();
 
@@ -2376,7 +2376,7 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
     dy.insert(std::abs(m_y1.getLowerBound() - m_y2.getUpperBound()));
     dy.insert(std::abs(m_y1.getUpperBound() - m_y2.getLowerBound()));
     dy.insert(std::abs(m_y1.getUpperBound() - m_y2.getUpperBound()));
-    if(m_y1.intersects(m_y2))
+    if(m_y1.getLowerBound() <= m_y2.getUpperBound() && m_y2.getLowerBound() <= m_y1.getUpperBound())
       dy.insert(0.0);
     dy.close();
 
-- 
2.43.0


From b19605addd602376ab5e93101d7ddface0ae61de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:11 +0000
Subject: [PATCH 034/124] fix: pow truncated a fractional exponent

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index eae00e3..8e02a22 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -2437,11 +2437,16 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
 namespace {
 //eint mod(eint a, eint b) { return a % b; }
 eint mod(edouble a, edouble b) {return static_cast<eint::basis_type>(std::fmod(cast_basis(a), cast_basis(b)));}
+edouble power(edouble base, edouble exponent) {
+  if(std::ceil(exponent) == exponent)
+    return std::pow(base, static_cast<eint>(exponent));
+  return edouble(std::pow(cast_basis(base), cast_basis(exponent)));
+}
 }
   CREATE_FUNCTION_CONSTRAINT_TWO_ARG(Max, std::max, edouble);
   CREATE_FUNCTION_CONSTRAINT_TWO_ARG(Min, std::min, edouble);
   CREATE_FUNCTION_CONSTRAINT_ONE_ARG(Abs, std::abs, edouble);
-  CREATE_FUNCTION_CONSTRAINT_TWO_ARG(Pow, std::pow, edouble);
+  CREATE_FUNCTION_CONSTRAINT_TWO_ARG(Pow, power, edouble);
   CREATE_FUNCTION_CONSTRAINT_ONE_ARG(Sqrt, std::sqrt, edouble);
   CREATE_FUNCTION_CONSTRAINT_TWO_ARG(Mod, mod, eint);
 
-- 
2.43.0


From f73e2f90135f25350e76ad3f461657e34884bf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:27 +0000
Subject: [PATCH 035/124] fix: assigning a contradictory value after a
 relaxation raised an error

handleEmpty required that no variable had been relaxed since the last
propagation; a variable which is emptied is simply no longer to be listed
as relaxed.
---
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 31b43cf..dc83b57 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -824,8 +824,8 @@ void ConstraintEngine::notify(const ConstrainedVariableId source,
     if (variable->getCurrentPropagatingConstraint().isId()) {
     	debugMsg("ConstraintEngine:emptied","Var emptied by constraint:"<< variable->getCurrentPropagatingConstraint()->toLongString());
     }
-    //check_error(m_relaxed == false);
-    check_error(m_relaxed.empty());
+    // Other variables may still wait to be propagated after a relaxation, e.g. when a client assigns a value to this one.
+    m_relaxed.erase(variable);
     getViolationMgr().handleEmpty(variable);
   }
 
-- 
2.43.0


From 7ce160ff21e6bacf38d86696cddd456338bfd837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:27 +0000
Subject: [PATCH 036/124] fix: DefaultPropagator forgot pending constraints on
 an inconsistency

The constraints which had not been executed when a variable was emptied
were dropped from the agenda and never enforced after the recovery.
---
 .../ConstraintEngine/component/Propagators.cc   | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Propagators.cc b/src/PLASMA/ConstraintEngine/component/Propagators.cc
index 108bed9..32ddbcf 100644
--- a/src/PLASMA/ConstraintEngine/component/Propagators.cc
+++ b/src/PLASMA/ConstraintEngine/component/Propagators.cc
@@ -77,18 +77,11 @@ DefaultPropagator::DefaultPropagator(const std::string& name,
       }
     }
 
-    // If we can continue propagation despite the discovered inconsistency,
-    // keep agenda for when the ConstraintEngine recovers and decides to resume propagation
-    if(getConstraintEngine()->provenInconsistent()) {
-        if (getConstraintEngine()->canContinuePropagation()) {
-	        debugMsg("DefaultPropagator:agenda","CE was proven inconsistent, keeping agenda because propagation can continue later");
-	        // TODO: should remove from the agenda any constraints associated with the empty variable, since it'll be relaxed and they'll ba added again
-        }
-        else {
-            m_agenda.clear();
-	        debugMsg("DefaultPropagator:agenda","Cleared agenda because CE was proven inconsistent");
-        }
-    }
+    // The agenda is kept on a discovered inconsistency: its constraints have yet to be enforced once the
+    // ConstraintEngine recovers, even those on variables which the recovery does not change.
+    // TODO: should remove from the agenda any constraints associated with the empty variable, since it'll be relaxed and they'll ba added again
+    condDebugMsg(getConstraintEngine()->provenInconsistent(),
+                 "DefaultPropagator:agenda","CE was proven inconsistent, keeping agenda because propagation can continue later");
     m_activeConstraint = 0;
   }
 
-- 
2.43.0


From c25971ea0581ed5853c77f2d938591087f37b842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:48 +0000
Subject: [PATCH 037/124] fix: deleting an EqualProduct constraint terminated
 the process

Its internal variables were destroyed while the contained constraints
were still posted on them.
---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 8e02a22..108e318 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1054,11 +1054,12 @@ EqualSumConstraint::EqualSumConstraint(const std::string& name,
   }
 
   void EqualProductConstraint::handleDiscard(){
-    // Further unwind for contained variables
-    // m_product1.discard();
-    // m_product2.discard();
-    // m_product3.discard();
-    // m_product4.discard();
+    // The contained constraints must go before the internal variables in their scopes.
+    m_eqProductC1.reset();
+    m_eqProductC2.reset();
+    m_eqProductC3.reset();
+    m_eqProductC4.reset();
+    m_eqProductC5.reset();
   }
 
   /*********** CondAllSameConstraint *************/
-- 
2.43.0


From 8067f954c80714c81353591c04c72f0e835132c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:46 +0000
Subject: [PATCH 038/124] fix: a constraint deactivated when its scope became
 ground was never enforced

Restricting the last base domain of its scope flagged the inactive
constraint as redundant, after which it could not be reactivated.
---
 src/PLASMA/ConstraintEngine/base/Constraint.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/Constraint.cc b/src/PLASMA/ConstraintEngine/base/Constraint.cc
index 48d3daa..745667c 100644
--- a/src/PLASMA/ConstraintEngine/base/Constraint.cc
+++ b/src/PLASMA/ConstraintEngine/base/Constraint.cc
@@ -229,8 +229,8 @@ Constraint::getModifiedVariables(const ConstrainedVariableId) const {
     if(m_isRedundant)
       return;
 
-    // Update
-    m_isRedundant = testIsRedundant(var);
+    // Update. A constraint which is deactivated has yet to be enforced, so it is not redundant.
+    m_isRedundant = isActive() && testIsRedundant(var);
 
     // In the event of a transition, deactivate yourself
     if(m_isRedundant)
-- 
2.43.0


From c968af8c02a484569d82e70c7b69ff1e88535e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:29 +0000
Subject: [PATCH 039/124] fix: opening a variable kept what propagation had
 removed from it

---
 src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc b/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
index 6cab23a..3420cd1 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
@@ -413,8 +413,13 @@ const std::string& ConstrainedVariable::getName() const {
     bool needReset = internal_baseDomain().isSingleton();
 
     internal_baseDomain().open();
-    if(getCurrentDomain().isClosed())
-      getCurrentDomain().open();
+    // Opening is a relaxation: the engine takes it that the values which were propagated away are back.
+    if(getCurrentDomain().isClosed()) {
+      if(m_specifiedFlag)
+        getCurrentDomain().open();
+      else
+        getCurrentDomain().relax(internal_baseDomain());
+    }
 
     if (needReset)
     	reset();
-- 
2.43.0


From e008587aaee950d8c28183640b5f1b3785c3a7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:01 +0000
Subject: [PATCH 040/124] fix: removing an empty variable made the engine
 forget the other empty ones

---
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 10 ++++++++--
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index dc83b57..4c4cfe8 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -42,6 +42,7 @@ namespace EUROPA
 
     virtual bool isEmpty(ConstrainedVariableId v) const;
     virtual void addEmptyVariable(ConstrainedVariableId c);
+    virtual void removeEmptyVariable(ConstrainedVariableId c);
     virtual const ConstrainedVariableSet& getEmptyVariables() const;
     virtual void clearEmptyVariables();
     virtual void relaxEmptyVariables();
@@ -192,6 +193,11 @@ PSList<PSConstraint*> ViolationMgrImpl::getAllViolations() const {
     m_emptyVariables.insert(c); // TODO: make sure set is avoiding duplicates correctly
   }
 
+  void ViolationMgrImpl::removeEmptyVariable(ConstrainedVariableId c)
+  {
+    m_emptyVariables.erase(c);
+  }
+
   const ConstrainedVariableSet& ViolationMgrImpl::getEmptyVariables() const
   {
     return m_emptyVariables;
@@ -455,8 +461,8 @@ DomainListenerId ConstraintEngine::allocateVariableListener(const ConstrainedVar
     if(Entity::isPurging())
       return;
 
-    if(getViolationMgr().isEmpty(variable))
-      clearEmptyVariables();
+    // Other variables may be empty as well, so only this one is forgotten.
+    getViolationMgr().removeEmptyVariable(variable);
 
     publish(notifyRemoved(variable));
 
diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh
index 48113bc..2f30f96 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh
@@ -46,6 +46,7 @@ typedef Id<ConstraintEngineListener> ConstraintEngineListenerId;
 
 	  virtual bool isEmpty(ConstrainedVariableId v) const = 0;
   	  virtual void addEmptyVariable(ConstrainedVariableId c) = 0;
+  	  virtual void removeEmptyVariable(ConstrainedVariableId c) = 0;
   	  virtual const ConstrainedVariableSet& getEmptyVariables() const = 0;
   	  virtual void clearEmptyVariables() = 0;
       virtual void relaxEmptyVariables() = 0;
-- 
2.43.0


From 98256b9d11b92fe4de93af8dcad7d00491ca772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:00 +0000
Subject: [PATCH 041/124] fix: closing a variable left values in it which are
 not in its base domain

---
 src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc b/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
index 3420cd1..f388bf0 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
@@ -401,6 +401,10 @@ const std::string& ConstrainedVariable::getName() const {
     if(getCurrentDomain().isOpen())
       getCurrentDomain().close();
 
+    // A domain which propagation has closed already may have values which are not in the base domain.
+    if(!getCurrentDomain().isEmpty())
+      getCurrentDomain().intersect(internal_baseDomain());
+
     if(getCurrentDomain().isEmpty())
       return;
     if(internal_baseDomain().isSingleton() && !isSpecified())
-- 
2.43.0


From 3debd7991aaaefa4b52639e14c5c3df81484f2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:53 +0000
Subject: [PATCH 042/124] fix: specifying a removed value of an open variable
 left its domain open

---
 src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc b/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
index f388bf0..519c33f 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
@@ -368,8 +368,12 @@ const std::string& ConstrainedVariable::getName() const {
     m_specifiedValue = singletonValue;
 
     violated = !getCurrentDomain().isMember(singletonValue);
-    if (violated)
+    if (violated) {
+        // As for a value which is set, the domain is closed when it is later relaxed to the value.
+        if (getCurrentDomain().isOpen())
+            getCurrentDomain().close();
         getCurrentDomain().empty();
+    }
     else
         getCurrentDomain().set(singletonValue);
 
-- 
2.43.0


From b6d0ee5c037e6998f1034c86e379aef9f1aafb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:14 +0000
Subject: [PATCH 043/124] fix: deleting a violated constraint left its partial
 effects on the domains

---
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 4c4cfe8..6ef9f22 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -507,8 +507,9 @@ void ConstraintEngine::add(const ConstraintId constraint, const std::string& pro
 
     constraint->getPropagator()->removeConstraint(constraint);
 
-    // If the constraint is inactive, there is no need to relax. So just worry if it is actually active
-    if(constraint->isActive()){
+    // If the constraint is inactive, there is no need to relax. So just worry if it is actually active,
+    // or was only deactivated because it is violated: it may have restricted its scope before that.
+    if(constraint->isActive() || isViolated(constraint)){
     	debugMsg("ConstraintEngine:remove:Constraint",
     			"Propagating relaxations for " << constraint->getName() << "(" << constraint->getKey() << ")");
 
-- 
2.43.0


From 2c981a669c928c3f766ba93ade88dcd3207ca1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:30 +0000
Subject: [PATCH 044/124] fix: constraints stayed violated after the one which
 they contradict was deleted

They were only tried again when a domain of the deleted constraint's scope
widened.
---
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 6ef9f22..b0f1faf 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -509,7 +509,9 @@ void ConstraintEngine::add(const ConstraintId constraint, const std::string& pro
 
     // If the constraint is inactive, there is no need to relax. So just worry if it is actually active,
     // or was only deactivated because it is violated: it may have restricted its scope before that.
-    if(constraint->isActive() || isViolated(constraint)){
+    const bool violated = isViolated(constraint);
+    getViolationMgr().handleRemoved(constraint);
+    if(constraint->isActive() || violated){
     	debugMsg("ConstraintEngine:remove:Constraint",
     			"Propagating relaxations for " << constraint->getName() << "(" << constraint->getKey() << ")");
 
@@ -518,9 +520,12 @@ void ConstraintEngine::add(const ConstraintId constraint, const std::string& pro
     		ConstrainedVariableId id(*it);
     		if(id->lastRelaxed() < m_cycleCount)
 		  id->relax();
+    		// Without this constraint others may no longer be violated, even if it restricted nothing.
+    		if(m_violationMgr->getMaxViolationsAllowed() > 0 && getViolation() > 0 &&
+    		   !id->isSpecified() && id->lastRelaxed() < m_cycleCount)
+		  handleRelax(id);
     	}
     }
-    getViolationMgr().handleRemoved(constraint);
 
     publish(notifyRemoved(constraint));
     debugMsg("ConstraintEngine:remove:Constraint",
-- 
2.43.0


From 4852ece6c3172639cffd5beab0c0477b7f7f78f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:30 +0000
Subject: [PATCH 045/124] fix: variables linked by a violated constraint were
 not relaxed with it

---
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index b0f1faf..e990529 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -886,6 +886,9 @@ void ConstraintEngine::notify(const ConstrainedVariableId source,
 	it != relaxationAgenda.end(); ++it) {
       std::list<ConstrainedVariableId>::iterator next = it;
       ++next;
+      // Violated constraints which are restored link variables as well.
+      if(!m_relaxingViolation && (*it)->lastRelaxed() < m_cycleCount)
+        m_violationMgr->handleRelax(*it);
       addLinkedVarsForRelaxation(*it, relaxationAgenda, next, visitedVariables);
     }
 
-- 
2.43.0


From 20de0e31d9e40ed278ede1314ae488e578026341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:11 +0000
Subject: [PATCH 046/124] fix: equivalence class propagator failed on repeated
 and on ground equalities

Posting the same equality twice, or one whose scope is or becomes ground,
raised an error; so did deleting an equality which was deactivated.
---
 .../component/EquivalenceClassCollection.cc           |  5 ++---
 .../component/EquivalenceClassCollection.hh           |  2 +-
 src/PLASMA/ConstraintEngine/component/Propagators.cc  | 11 ++++++++++-
 src/PLASMA/ConstraintEngine/component/Propagators.hh  |  3 +++
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/EquivalenceClassCollection.cc b/src/PLASMA/ConstraintEngine/component/EquivalenceClassCollection.cc
index 8c16957..4018161 100644
--- a/src/PLASMA/ConstraintEngine/component/EquivalenceClassCollection.cc
+++ b/src/PLASMA/ConstraintEngine/component/EquivalenceClassCollection.cc
@@ -24,19 +24,18 @@ ConstraintNode::ConstraintNode(const ConstrainedVariableId variable)
     m_graph = graph;
 
     // Iterate over any neighbours not yet touched
-    for(std::set<ConstraintNodeId>::iterator it = m_neighbours.begin(); it != m_neighbours.end(); ++it)
+    for(std::multiset<ConstraintNodeId>::iterator it = m_neighbours.begin(); it != m_neighbours.end(); ++it)
       if(!(*it)->hasBeenUpdated(nextCycle))
 	 (*it)->update(nextCycle, connectedVariables, graph, oldGraphKeys);
   }
 
   void ConstraintNode::addNeighbour(const ConstraintNodeId node){
-    check_error(m_neighbours.find(node) == m_neighbours.end());
     m_neighbours.insert(node);
   }
 
   void ConstraintNode::removeNeighbour(const ConstraintNodeId node){
     check_error(m_neighbours.find(node) != m_neighbours.end());
-    m_neighbours.erase(node);
+    m_neighbours.erase(m_neighbours.find(node));
   }
 
   EquivalenceClassCollection::EquivalenceClassCollection()
diff --git a/src/PLASMA/ConstraintEngine/component/EquivalenceClassCollection.hh b/src/PLASMA/ConstraintEngine/component/EquivalenceClassCollection.hh
index acdeea4..45cf84e 100644
--- a/src/PLASMA/ConstraintEngine/component/EquivalenceClassCollection.hh
+++ b/src/PLASMA/ConstraintEngine/component/EquivalenceClassCollection.hh
@@ -75,7 +75,7 @@ namespace EUROPA{
     const ConstrainedVariableId m_variable;
     int m_graph;
     int m_lastUpdated;
-    std::set<ConstraintNodeId> m_neighbours;
+    std::multiset<ConstraintNodeId> m_neighbours; /*!< One entry per constraint, as the same variables may be equated repeatedly */
   };
 
   /**
diff --git a/src/PLASMA/ConstraintEngine/component/Propagators.cc b/src/PLASMA/ConstraintEngine/component/Propagators.cc
index 32ddbcf..84715d0 100644
--- a/src/PLASMA/ConstraintEngine/component/Propagators.cc
+++ b/src/PLASMA/ConstraintEngine/component/Propagators.cc
@@ -100,7 +100,7 @@ DefaultPropagator::DefaultPropagator(const std::string& name,
 
 EqualityConstraintPropagator::EqualityConstraintPropagator(const std::string& name,
                                                            const ConstraintEngineId constraintEngine)
-    : Propagator(name, constraintEngine), m_fullReprop(false), m_active(false),
+    : Propagator(name, constraintEngine), m_fullReprop(false), m_active(false), m_connected(),
       m_eqClassCollection(), m_eqClassAgenda() {}
 
   EqualityConstraintPropagator::~EqualityConstraintPropagator(){}
@@ -129,6 +129,10 @@ EqualityConstraintPropagator::EqualityConstraintPropagator(const std::string& na
 
   void EqualityConstraintPropagator::handleConstraintAdded(const ConstraintId constraint){
     check_error(!m_active);
+    if(!m_connected.insert(constraint).second) {
+      m_eqClassAgenda.insert(m_eqClassCollection.getGraphKey(constraint->getScope()[0]));
+      return;
+    }
     const ConstrainedVariableId x = constraint->getScope()[0];
     const ConstrainedVariableId y = constraint->getScope()[1];
 
@@ -143,6 +147,8 @@ EqualityConstraintPropagator::EqualityConstraintPropagator(const std::string& na
 
   void EqualityConstraintPropagator::handleConstraintRemoved(const ConstraintId constraint){
     check_error(!m_active);
+    if(m_connected.erase(constraint) == 0)
+      return;
     const ConstrainedVariableId x = constraint->getScope()[0];
     const ConstrainedVariableId y = constraint->getScope()[1];
     m_eqClassCollection.removeConnection(x, y);
@@ -154,7 +160,10 @@ EqualityConstraintPropagator::EqualityConstraintPropagator(const std::string& na
   }
 
   void EqualityConstraintPropagator::handleConstraintDeactivated(const ConstraintId constraint){
+    // Nothing is relaxed, so the classes which are left are equated already unless something is pending.
+    const bool pending = updateRequired();
     handleConstraintRemoved(constraint);
+    m_fullReprop = pending;
   }
 
   void EqualityConstraintPropagator::handleNotification(const ConstrainedVariableId variable,
diff --git a/src/PLASMA/ConstraintEngine/component/Propagators.hh b/src/PLASMA/ConstraintEngine/component/Propagators.hh
index d95128c..b028fef 100644
--- a/src/PLASMA/ConstraintEngine/component/Propagators.hh
+++ b/src/PLASMA/ConstraintEngine/component/Propagators.hh
@@ -91,6 +91,9 @@ namespace EUROPA {
     bool m_active; /**< True if we are in the execute method. Otherwise false. Used to prevent additions to the agenda
 		     while we are actively propagating */
 
+    std::set<ConstraintId> m_connected; /**< The active constraints, which are in the collection. An active constraint may be
+				   activated again, and an inactive one removed. */
+
     EquivalenceClassCollection m_eqClassCollection; /**< Does all the real work of managing Equivalence Classes */
 
     std::set<int> m_eqClassAgenda; /**< Inbound notifications are translated into the affected equivalence class and stored here for
-- 
2.43.0


From fd3a7c177cb2a9e58e13a671147379dc3980337e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:23 +0000
Subject: [PATCH 047/124] fix: memberImply raised an error on an open domain
 without values

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 108e318..51345fe 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1489,10 +1489,11 @@ AllDiffConstraint::AllDiffConstraint(const std::string& name,
     Domain& domC(getCurrentDomain(m_variables[2]));
     Domain& domD(getCurrentDomain(m_variables[3]));
 
+     if (domA.isOpen() || domB.isOpen() || domD.isOpen())
+      return;
+
     assertFalse(domA.isEmpty() || domB.isEmpty() || domC.isEmpty() || domD.isEmpty());
 
-    if (domA.isOpen() || domB.isOpen() || domD.isOpen())
-      return;
     if (domB.isSubsetOf(domC))
       (void) domA.intersect(domD);
   }
-- 
2.43.0


From c922701769cf0a88ee19c3022c13c3522a5f44f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:01 +0000
Subject: [PATCH 048/124] fix: division constraint failed on a domain whose
 bounds meet within the precision

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 51345fe..80f8174 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -360,6 +360,9 @@ bool updateDivBounds(IntervalDomain& domZ,
   domX.getBounds(xMin, xMax);
   domY.getBounds(yMin, yMax);
 
+  // The bounds of a singleton may cross within the precision.
+  if(yMax < yMin)
+    std::swap(yMin, yMax);
 
   // if [Y] = {0} (singleton 0 value)
   if(yMin == 0.0 && yMax == 0.0) {
-- 
2.43.0


From 03c3cbb566df4a492947fc2766d8b9813686d972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:42 +0000
Subject: [PATCH 049/124] fix: time points were entered into the ring of a
 deleted time point

---
 src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
index 4c19bf8..008ec0f 100644
--- a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
+++ b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
@@ -969,7 +969,7 @@ Void TemporalNetwork::maintainTEQ (Time lb, Time ub, Timepoint& src, Timepoint&
       targ.ringLeader = src.ringLeader;
       src.ringLeader->ringFollowers.push_back(&targ);
     }
-    if (src.ringLeader) {
+    if (src.ringLeader == NULL) {
       // In this case targ->ringLeader must be non-null
       src.ringLeader = targ.ringLeader;
       targ.ringLeader->ringFollowers.push_back(&src);
-- 
2.43.0


From 09b6e585320a084f618fee384eafcfa8f2e53e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:42 +0000
Subject: [PATCH 050/124] fix: deleted node was still found as the target of
 its neighbours' edges

---
 src/PLASMA/TemporalNetwork/base/DistanceGraph.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PLASMA/TemporalNetwork/base/DistanceGraph.cc b/src/PLASMA/TemporalNetwork/base/DistanceGraph.cc
index ff47394..f6ffdff 100644
--- a/src/PLASMA/TemporalNetwork/base/DistanceGraph.cc
+++ b/src/PLASMA/TemporalNetwork/base/DistanceGraph.cc
@@ -113,6 +113,7 @@ Void DistanceGraph::deleteNode(Dnode& node)
   for (Int j=0; j < node.inCount; j++) {
     Dedge* edge = node.inArray[j];
     detachEdge(edge->from.outArray, edge->from.outCount, *edge);
+    edge->from.edgemap.erase(&node);
     eraseEdge(*edge);
   }
   node.inCount = node.outCount = 0;
-- 
2.43.0


From be2687b959d61e77bed478a1b28138589c4adef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:07 +0000
Subject: [PATCH 051/124] fix: temporal distances came with internal
 infinities, and crashed on variables without a timepoint

---
 .../component/TemporalPropagator.cc           | 46 +++++++++++++++----
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 03c106a..66ed798 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -1106,7 +1106,7 @@ bool TemporalPropagator::isValidForPropagation() const {
     }
     Time lb, ub;
     m_tnet->calcDistanceBounds(*tstart, *tend, lb, ub, exact);
-    return(IntervalIntDomain(lb,ub));
+    return(IntervalIntDomain(mapToExternalInfinity(lb), mapToExternalInfinity(ub)));
   }
 
   void TemporalPropagator::getTemporalDistanceDomains(const ConstrainedVariableId first,
@@ -1120,13 +1120,23 @@ bool TemporalPropagator::isValidForPropagation() const {
     std::vector<Time> ubs;
     for (unsigned i=0; i<seconds.size(); i++) {
       Timepoint* tend = getTimepoint(seconds[i]);
-      tends.push_back(tend);
+      if (tstart && tend)
+        tends.push_back(tend);
     }
-    m_tnet->calcDistanceBounds(*tstart, tends, lbs, ubs);
-    checkError((lbs.size() == seconds.size()) && (lbs.size() == ubs.size()),
+    if (!tends.empty())
+      m_tnet->calcDistanceBounds(*tstart, tends, lbs, ubs);
+    checkError((lbs.size() == tends.size()) && (lbs.size() == ubs.size()),
                "size mismatch in TemporalPropagator getTemporalDistanceDomains");
+    unsigned next = 0;
     for (unsigned i=0; i<seconds.size(); i++) {
-      domains.push_back(IntervalIntDomain(lbs[i],ubs[i]));
+      // Variables without any temporal constraint have no timepoint.
+      if (!(tstart && getTimepoint(seconds[i]))) {
+        domains.push_back(getTemporalDistanceDomain(first, seconds[i], true));
+        continue;
+      }
+      domains.push_back(IntervalIntDomain(mapToExternalInfinity(lbs[next]),
+                                          mapToExternalInfinity(ubs[next])));
+      ++next;
     }
     return;
   }
@@ -1144,11 +1154,29 @@ bool TemporalPropagator::isValidForPropagation() const {
     std::vector<Timepoint*> tends;
     for (unsigned i=0; i<seconds.size(); i++) {
       Timepoint* tend = getTimepoint(seconds[i]);
-      tends.push_back(tend);
+      if (tstart && tend)
+        tends.push_back(tend);
+    }
+    std::vector<Time> tlbs, tubs;
+    if (!tends.empty())
+      m_tnet->calcDistanceSigns(*tstart, tends, tlbs, tubs);
+    checkError((tlbs.size() == tends.size()) && (tlbs.size() == tubs.size()),
+               "size mismatch in TemporalPropagator getTemporalDistanceSigns");
+    lbs.clear();
+    ubs.clear();
+    unsigned next = 0;
+    for (unsigned i=0; i<seconds.size(); i++) {
+      // Variables without any temporal constraint have no timepoint.
+      if (!(tstart && getTimepoint(seconds[i]))) {
+        const IntervalIntDomain distance = getTemporalDistanceDomain(first, seconds[i], true);
+        lbs.push_back(cast_long(distance.getLowerBound()));
+        ubs.push_back(cast_long(distance.getUpperBound()));
+        continue;
+      }
+      lbs.push_back(tlbs[next]);
+      ubs.push_back(tubs[next]);
+      ++next;
     }
-    m_tnet->calcDistanceSigns(*tstart, tends, lbs, ubs);
-    checkError((lbs.size() == seconds.size()) && (lbs.size() == ubs.size()),
-               "size mismatch in TemporalPropagator getTemporalDistanceDomains");
     return;
   }
 
-- 
2.43.0


From 849a507e396e86aa9b2f3bd94d037b248a558d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:07 +0000
Subject: [PATCH 052/124] fix: constraint changes announced while the
 propagator processed others were lost

---
 .../TemporalNetwork/component/TemporalPropagator.cc    | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 66ed798..6052993 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -534,7 +534,10 @@ void TemporalPropagator::processVariableChanges() {
 
 void TemporalPropagator::processConstraintChanges() {
   debugMsg("TemporalPropagator:updateTnet", "Processing changed constraints... ");
-  for( ConstraintsSet::const_iterator it = m_changedConstraints.begin(); it != m_changedConstraints.end(); ++it){
+  // Applying a constraint may restrict a distance, and so change others which are to be processed again.
+  ConstraintsSet changed;
+  changed.swap(m_changedConstraints);
+  for( ConstraintsSet::const_iterator it = changed.begin(); it != changed.end(); ++it){
     ConstraintId constraint = *it;
     if(!constraint->isActive())
       continue;
@@ -543,10 +546,11 @@ void TemporalPropagator::processConstraintChanges() {
 
     // If the cnet has become inconsistent, which can happen since distance bounds may be restricted as we apply
     // a constraint, then we can skip out.
-    if(getConstraintEngine()->provenInconsistent() && !getConstraintEngine()->getAllowViolations())
+    if(getConstraintEngine()->provenInconsistent() && !getConstraintEngine()->getAllowViolations()) {
+      m_changedConstraints.insert(++it, changed.end());
       break;
+    }
   }
-  m_changedConstraints.clear();
   debugMsg("TemporalPropagator:updateTnet", "DONE Processing changed constraints... ");
 
 }
-- 
2.43.0


From bee62bb17b10448550d5ef9da790055ed8be5628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:07 +0000
Subject: [PATCH 053/124] fix: durations were updated further after one had
 been emptied

---
 src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 6052993..b014dbb 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -631,8 +631,13 @@ void TemporalPropagator::updateCnet() {
     }
   }
 
-  for(std::vector<TokenId>::const_iterator it = updatedTokens.begin(); it != updatedTokens.end(); ++it)
+  for(std::vector<TokenId>::const_iterator it = updatedTokens.begin(); it != updatedTokens.end(); ++it) {
     updateCnetDuration(*it);
+    // A duration which is the distance of other constraints too may have been restricted by them already,
+    // which the tnet does not know yet. No bounds are left to be updated if that is a violation.
+    if((*it)->duration()->lastDomain().isEmpty())
+      break;
+  }
 
   m_tnet->resetUpdatedTimepoints();
 }
-- 
2.43.0


From e7209dfd58c358bc37f7f5387ffcf303a2442467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:07 +0000
Subject: [PATCH 054/124] fix: a variable specified and reset between
 propagations kept its base bounds

---
 src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc         | 4 ++++
 src/PLASMA/TemporalNetwork/base/TemporalNetwork.hh         | 5 +++++
 src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
index 008ec0f..3fe41ee 100644
--- a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
+++ b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
@@ -1019,6 +1019,10 @@ void TemporalNetwork::handleNodeUpdate(const Dnode& node) {
     m_updatedTimepoints.insert(const_cast<Timepoint*>(&tnode));
 }
 
+  void TemporalNetwork::addUpdatedTimepoint(Timepoint& timepoint) {
+    m_updatedTimepoints.insert(&timepoint);
+  }
+
   void TemporalNetwork::resetUpdatedTimepoints() {
     m_updatedTimepoints.clear();
   }
diff --git a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.hh b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.hh
index aa0bebf..922bd1a 100644
--- a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.hh
+++ b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.hh
@@ -305,6 +305,11 @@ namespace EUROPA {
      */
     void resetUpdatedTimepoints();
 
+    /**
+     * @brief Add a timepoint to the updated ones although its bounds are the same.
+     */
+    void addUpdatedTimepoint(Timepoint& timepoint);
+
      /**
      * @brief Add node to set of updated timepoints.
      * @param node node to add.
diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index b014dbb..738dbe5 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -826,6 +826,10 @@ void TemporalPropagator::updateTimepoint(const ConstrainedVariableId var) {
   TemporalConstraint* const baseDomainConstraint = tp->getBaseDomainConstraint();
   TemporalConstraint* newConstraint = updateConstraint(var, baseDomainConstraint, lb, ub);
 
+  // The variable may have been relaxed to what the tnet has as its base domain constraint (when it is specified
+  // and reset in between two updates, for example), so the bounds are passed on even if they do not change.
+  m_tnet->addUpdatedTimepoint(*tp);
+
   if(newConstraint != NULL) {
     //tp->setBaseDomainConstraint(baseDomainConstraint);
     debugMsg("TemporalPropagator:updateTimepoint",
-- 
2.43.0


From 4b9ff08d1f239bcdaf2a720b50f6e2e395952b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:07 +0000
Subject: [PATCH 055/124] fix: an inconsistent temporal network was reported
 consistent after an unrelated relaxation

---
 src/PLASMA/TemporalNetwork/base/TemporalNetwork.hh         | 4 ++--
 src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.hh b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.hh
index 922bd1a..7b76e46 100644
--- a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.hh
+++ b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.hh
@@ -132,10 +132,10 @@ namespace EUROPA {
     Time getUpperTimepointBound(const Timepoint& id);
 
     /**
-     * @brief Test if the STN is consistent
+     * @brief The consistency of the STN as it was last propagated
      * @return true iff network is consistent. False otherwise.
      */
-    //Bool isConsistent() const;
+    Bool getConsistent() const { return consistent; }
 
     /**
      * @brief Propagate the network.
diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 738dbe5..db9c68d 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -362,7 +362,10 @@ ConstraintId getConstraint(ConstrainedVariableId fromvar,
                             m_changedVariables.empty()
                             && !m_tnet->updateRequired());
 
-    return (!fullyPropagated);
+    // The variable which was emptied to report an inconsistent tnet may have been relaxed with nothing else changing.
+    bool unreported = (!m_tnet->getConsistent() && !getConstraintEngine()->getAllowViolations());
+
+    return (!fullyPropagated || unreported);
   }
 
   void TemporalPropagator::addTimepoint(const ConstrainedVariableId var) {
-- 
2.43.0


From 0915ad640abb4c8fb04c8b6974c0fbed900e4f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:07 +0000
Subject: [PATCH 056/124] fix: variables changed while their constraints were
 redundant crashed the temporal propagator

---
 .../TemporalNetwork/component/TemporalPropagator.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index db9c68d..8f3e804 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -608,9 +608,16 @@ void TemporalPropagator::updateCnet() {
 
     checkError(!dom.isEmpty(), var->toString());
 
-    checkError(dom.isMember(lb) && dom.isMember(ub),
-               "Updated bounds [" << lb << " " << ub << "] from timepoint " << tp << " are outside of "
-               << dom.toString() << " for " << var->toString());
+    // Changes of a variable are not announced while none of its constraints is active (they are deactivated when
+    // they are redundant), so the tnet has to be told now.
+    Time baseLb, baseUb;
+    tp->getBaseDomainConstraint()->getBounds(baseLb, baseUb);
+    if(!dom.isMember(lb) || !dom.isMember(ub) ||
+       mapToInternalInfinity(cast_int(dom.getLowerBound())) < mapToInternalInfinity(baseLb) ||
+       mapToInternalInfinity(cast_int(dom.getUpperBound())) > mapToInternalInfinity(baseUb)) {
+      m_changedVariables.insert(std::make_pair(var->getKey(), var));
+      continue;
+    }
 
     // PHM Support for reftime calculations
     if (m_tnet->getReferenceTimepoint()) {
-- 
2.43.0


From f09d0d6d09e0daf807151c0408cd460950859cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:43 +0000
Subject: [PATCH 057/124] fix: objects of a subtype never reached the open
 object variables of its supertypes

---
 src/PLASMA/PlanDatabase/base/PlanDatabase.cc | 33 ++++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/PlanDatabase.cc b/src/PLASMA/PlanDatabase/base/PlanDatabase.cc
index 56c1c39..0512a8e 100644
--- a/src/PLASMA/PlanDatabase/base/PlanDatabase.cc
+++ b/src/PLASMA/PlanDatabase/base/PlanDatabase.cc
@@ -180,13 +180,17 @@ namespace EUROPA{
     }
 
     // Now we must push the insertion to any connected variables.
-    ObjVarsByObjType_CI it = m_objectVariablesByObjectType.find(object->getType());
-    while (it != m_objectVariablesByObjectType.end() && it->first == object->getType()){
-      ConstrainedVariableId connectedObjectVariable = it->second.first;
-      check_error(connectedObjectVariable.isValid());
-      if(!connectedObjectVariable->isClosed())
-        connectedObjectVariable->insert(object->getKey());
-      ++it;
+    // The object belongs to the variables of its type and of all the types that one derives from.
+    const std::vector<std::string>& types = m_schema->getAllObjectTypes(object->getType());
+    for(std::vector<std::string>::const_iterator typeIt = types.begin(); typeIt != types.end(); ++typeIt){
+      ObjVarsByObjType_CI it = m_objectVariablesByObjectType.find(*typeIt);
+      while (it != m_objectVariablesByObjectType.end() && it->first == *typeIt){
+        ConstrainedVariableId connectedObjectVariable = it->second.first;
+        check_error(connectedObjectVariable.isValid());
+        if(!connectedObjectVariable->isClosed())
+          connectedObjectVariable->insert(object->getKey());
+        ++it;
+      }
     }
 
     publish(notifyAdded(object));
@@ -219,12 +223,15 @@ namespace EUROPA{
     }
 
     // Now we must push the removal to any connected variables.
-    ObjVarsByObjType_CI it = m_objectVariablesByObjectType.find(object->getType());
-    while (it != m_objectVariablesByObjectType.end() && it->first == object->getType()){
-      ConstrainedVariableId connectedObjectVariable = it->second.first;
-      check_error(connectedObjectVariable.isValid());
-      connectedObjectVariable->remove(object->getKey());
-      ++it;
+    const std::vector<std::string>& types = m_schema->getAllObjectTypes(object->getType());
+    for(std::vector<std::string>::const_iterator typeIt = types.begin(); typeIt != types.end(); ++typeIt){
+      ObjVarsByObjType_CI it = m_objectVariablesByObjectType.find(*typeIt);
+      while (it != m_objectVariablesByObjectType.end() && it->first == *typeIt){
+        ConstrainedVariableId connectedObjectVariable = it->second.first;
+        check_error(connectedObjectVariable.isValid());
+        connectedObjectVariable->remove(object->getKey());
+        ++it;
+      }
     }
 
     publish(notifyRemoved(object));
-- 
2.43.0


From d129d7ee01e8a277a66daf6c4b0d67f3977df863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:43 +0000
Subject: [PATCH 058/124] fix: parameters of an inherited predicate could not
 be queried by position

---
 src/PLASMA/PlanDatabase/base/Schema.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/Schema.cc b/src/PLASMA/PlanDatabase/base/Schema.cc
index ec1cba1..45399de 100644
--- a/src/PLASMA/PlanDatabase/base/Schema.cc
+++ b/src/PLASMA/PlanDatabase/base/Schema.cc
@@ -506,7 +506,10 @@ int Schema::getIndexFromName(const std::string& parentType, const std::string& m
     std::map<std::string, NameValueVector>::const_iterator membershipRelation_it =
       membershipRelation.find(predicate);
 
-    check_error(membershipRelation_it != membershipRelation.end(), predicate + " not found in the membership relation");
+    // If no hit, the parameters are those of the parent predicate
+    if(membershipRelation_it == membershipRelation.end())
+      return getParameterCount(getParent(predicate));
+
     const NameValueVector& members = membershipRelation_it->second;
 
     return(members.size());
@@ -526,7 +529,9 @@ int Schema::getIndexFromName(const std::string& parentType, const std::string& m
     std::map<std::string, NameValueVector>::const_iterator membershipRelation_it =
       membershipRelation.find(predicate);
 
-    check_error(membershipRelation_it != membershipRelation.end());
+    if(membershipRelation_it == membershipRelation.end())
+      return getParameterType(getParent(predicate), paramIndex);
+
     const NameValueVector& members = membershipRelation_it->second;
 
     return(members[paramIndex].first);
-- 
2.43.0


From 59850a5ecc34622636694868ef59804613781671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:43 +0000
Subject: [PATCH 059/124] fix: schema query caches kept answers from before a
 declaration or a reset

---
 src/PLASMA/PlanDatabase/base/Schema.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/base/Schema.cc b/src/PLASMA/PlanDatabase/base/Schema.cc
index 45399de..aef4e86 100644
--- a/src/PLASMA/PlanDatabase/base/Schema.cc
+++ b/src/PLASMA/PlanDatabase/base/Schema.cc
@@ -98,6 +98,11 @@ Schema::Schema(const std::string& name, const CESchemaId ces)
     childOfRelation.clear();
     objectPredicates.clear();
     typesWithNoPredicates.clear();
+    enumValuesToEnums.clear();
+    allObjectTypes.clear();
+    m_predTrueCache.clear();
+    m_predFalseCache.clear();
+    m_hasParentCache.clear();
 
     // Add System entities
 	addPrimitive("int");
@@ -570,6 +575,10 @@ int Schema::getIndexFromName(const std::string& parentType, const std::string& m
         childOfRelation.insert(std::pair<std::string, std::string>(objectType, parent));
     }
 
+    // Answers given before this declaration may not be right any more
+    allObjectTypes.clear();
+    m_predFalseCache.clear();
+
     objectTypes.insert(objectType);
     membershipRelation.insert(std::pair<std::string, NameValueVector>(objectType, NameValueVector()));
 
@@ -594,6 +603,10 @@ void Schema::addPredicate(const std::string& predicate) {
 
   debugMsg("Schema:addPredicate",
            "[" << m_name << "] " << "Added predicate " << predicate);
+  // Answers given before this declaration may not be right any more
+  m_predFalseCache.clear();
+  typesWithNoPredicates.clear();
+
   predicates.insert(predicate);
   membershipRelation.insert(std::pair<std::string, NameValueVector>(predicate, NameValueVector()));
 }
-- 
2.43.0


From ae91f6c13c917e19e3eba74fb9693056287870bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:43 +0000
Subject: [PATCH 060/124] fix: constructors were never matched by arguments of
 a derived or compatible type

---
 src/PLASMA/PlanDatabase/base/ObjectType.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/PlanDatabase/base/ObjectType.cc b/src/PLASMA/PlanDatabase/base/ObjectType.cc
index e734851..afef1e0 100644
--- a/src/PLASMA/PlanDatabase/base/ObjectType.cc
+++ b/src/PLASMA/PlanDatabase/base/ObjectType.cc
@@ -371,7 +371,7 @@ ObjectFactoryId ObjectTypeMgr::getFactory(const SchemaId schema,
     if(!schema->isA(objectType, signatureTypes[0]))
       continue;
 
-    if (signatureTypes[0].c_str() != objectType.c_str())
+    if (signatureTypes[0] != objectType)
       continue;
 
     // If the argument length does not match the signature, which includes the extra for the class
-- 
2.43.0


From ac41657db316df875b004b63f8edbe6fcf935dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:22 +0000
Subject: [PATCH 061/124] fix: a variable without a timepoint was marked for
 deletion from the temporal network

---
 src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 8f3e804..93f1779 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -61,8 +61,11 @@ TemporalPropagator::TemporalPropagator(const std::string& name,
     m_changedVariables.erase(tempVar->getKey());
     m_activeVariables.erase(tempVar->getKey());
 
-    m_variablesForDeletion.insert(tp);
-    unmap(tempVar);
+    // A variable that was deactivated before has no timepoint any more
+    if(tp){
+      m_variablesForDeletion.insert(tp);
+      unmap(tempVar);
+    }
   }
 
   void TemporalPropagator::handleConstraintAdded(const ConstraintId constraint){
-- 
2.43.0


From 06e9ddfa2fdfbeed66d0dee2c714b8dc42061338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:22 +0000
Subject: [PATCH 062/124] fix: archiving terminated tokens which had gone with
 their master

---
 src/PLASMA/PlanDatabase/base/PlanDatabase.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/PlanDatabase.cc b/src/PLASMA/PlanDatabase/base/PlanDatabase.cc
index 0512a8e..e847cca 100644
--- a/src/PLASMA/PlanDatabase/base/PlanDatabase.cc
+++ b/src/PLASMA/PlanDatabase/base/PlanDatabase.cc
@@ -918,7 +918,8 @@ unsigned long PlanDatabase::archive(eint tick){
   // Build a collection of tokens ordered by earliest start time. This is done to make cleaning up
   // of structures like a timeline more efficient. No measurements backing this up or evaluating the  true cost
   // of this algorithm
-  std::multimap<eint, TokenId> tokensToRemove;
+  // Tokens are recorded by key since removing one may remove others with it.
+  std::multimap<eint, eint> tokensToRemove;
   {
     EntityIterator< TokenSet::const_iterator > tokenIterator(m_tokens.begin(), m_tokens.end());
     while(!tokenIterator.done()){
@@ -935,7 +936,7 @@ unsigned long PlanDatabase::archive(eint tick){
         debugMsg("PlanDatabase:archive:remove",
                  token->toString() << " ending by " << latestEndTime << " for tick " << tick);
         eint earliestStartTime = cast_int(token->start()->lastDomain().getLowerBound());
-        tokensToRemove.insert(std::make_pair(earliestStartTime, token));
+        tokensToRemove.insert(std::make_pair(earliestStartTime, token->getKey()));
       }
       else {
         condDebugMsg(!token->isMerged(), "PlanDatabase:archive:skip",
@@ -944,8 +945,11 @@ unsigned long PlanDatabase::archive(eint tick){
     }
   }
 
-  for(std::multimap<eint, TokenId>::const_iterator it = tokensToRemove.begin(); it != tokensToRemove.end(); ++it){
-    TokenId token = it->second;
+  for(std::multimap<eint, eint>::const_iterator it = tokensToRemove.begin(); it != tokensToRemove.end(); ++it){
+    TokenId token = Entity::getEntity(it->second);
+    if(token.isNoId()) // Already gone, with the token it was a slave of
+      continue;
+
     token->terminate();
     delete static_cast<Token*>(token);
   }
-- 
2.43.0


From c9f1ab02a3cfec4e45c0790eba2bb9bc301ef25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:22 +0000
Subject: [PATCH 063/124] fix: a subgoal kept for the tokens merged onto it
 stayed after the last was split

---
 src/PLASMA/PlanDatabase/base/Token.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/Token.cc b/src/PLASMA/PlanDatabase/base/Token.cc
index 3bae4b2..59f3910 100644
--- a/src/PLASMA/PlanDatabase/base/Token.cc
+++ b/src/PLASMA/PlanDatabase/base/Token.cc
@@ -401,11 +401,15 @@ void Token::doMerge(const TokenId activeToken){
     m_activeToken = TokenId::noId();
 
     // Now clean up
-    bool activeTokenDeleted = activeToken->removeMergedToken(m_id);
-    memento->undo(activeTokenDeleted);
+    bool activeTokenUnsupported = activeToken->removeMergedToken(m_id);
+    memento->undo(false);
     memento.release();
 
     m_planDatabase->notifySplit(m_id);
+
+    // A token that lost its master was kept only for the tokens merged onto it
+    if(activeTokenUnsupported && !activeToken->isDeleted())
+      delete static_cast<Token*>(activeToken);
   }
 
   void Token::reject(){
@@ -459,6 +463,8 @@ void Token::doMerge(const TokenId activeToken){
     if(isCommitted() && !isDeleted())
       return;
 
+    // Hold a reference meanwhile, so that splitting the last one does not discard this token.
+    incRefCount();
     while(!m_mergedTokens.empty()){
       TokenId tokenToSplit = *(m_mergedTokens.begin());
       check_error(tokenToSplit.isValid());
@@ -466,6 +472,7 @@ void Token::doMerge(const TokenId activeToken){
       check_error(tokenToSplit->isMerged());
       tokenToSplit->split();
     }
+    decRefCount();
 
 
     // Must wait till now to reset since mergedTokens would otherwise be included in the new spec domain.
@@ -479,7 +486,7 @@ void Token::doMerge(const TokenId activeToken){
     while(!m_slaves.empty()){
       TokenId slave = *(m_slaves.begin());
       //TODO: clarify slave ownership so this can't leave dangling pointers outside
-      if(slave->removeMaster(m_id)) { 
+      if(slave->removeMaster(m_id) && !slave->isDeleted()) {
       	delete static_cast<Token*>(slave);
       }
     }
-- 
2.43.0


From 8896fdcd379f451f29b8664a4f5fcfec56f54f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:22 +0000
Subject: [PATCH 064/124] fix: asking a token for its compatible tokens created
 a second id for it

---
 src/PLASMA/PlanDatabase/base/Token.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/PlanDatabase/base/Token.cc b/src/PLASMA/PlanDatabase/base/Token.cc
index 59f3910..8bb8689 100644
--- a/src/PLASMA/PlanDatabase/base/Token.cc
+++ b/src/PLASMA/PlanDatabase/base/Token.cc
@@ -1160,7 +1160,7 @@ void Token::merge(PSToken* activeToken)
 
 PSList<PSToken*> Token::getCompatibleTokens(unsigned int limit, bool useExactTest) {
   std::vector<TokenId> tokens;
-  getPlanDatabase()->getCompatibleTokens(this,tokens,limit,useExactTest);
+  getPlanDatabase()->getCompatibleTokens(m_id,tokens,limit,useExactTest);
   PSList<PSToken*> retval;
   
   for(unsigned int i=0;i<tokens.size();i++) {
-- 
2.43.0


From e952dbc3526944b945de5dbf6b5a52daaad2bbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:22 +0000
Subject: [PATCH 065/124] fix: relaxing a variable forgot the restrictions of
 merged tokens

---
 src/PLASMA/PlanDatabase/base/TokenVariable.hh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/TokenVariable.hh b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
index 477bcc5..b4885ea 100644
--- a/src/PLASMA/PlanDatabase/base/TokenVariable.hh
+++ b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
@@ -284,10 +284,11 @@ TokenVariable<DomainType>::TokenVariable(const TokenId _parent,
 
   template<class DomainType>
   void TokenVariable<DomainType>::relax() {
-    Variable<DomainType>::relax();
-
-    if(!(this->isSpecified()))
-    	this->m_derivedDomain->relax(*m_integratedBaseDomain);
+    // The merged tokens restrict it below its own base domain
+    if(this->isSpecified())
+      Variable<DomainType>::relax();
+    else
+      this->m_derivedDomain->relax(*m_integratedBaseDomain);
   }
 
 }
-- 
2.43.0


From b0a8477d463c1eaf8fb05fb18b9b44587b8c073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:23 +0000
Subject: [PATCH 066/124] fix: a variable with a single base value was
 unspecified when a merge was cancelled

---
 src/PLASMA/PlanDatabase/base/TokenVariable.hh | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/base/TokenVariable.hh b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
index b4885ea..0cd321d 100644
--- a/src/PLASMA/PlanDatabase/base/TokenVariable.hh
+++ b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
@@ -68,6 +68,8 @@ private:
 
     bool computeBaseDomain();
 
+    void noteSingletonBaseDomain();
+
     void handleConstraintAdded(const ConstraintId constraint);
 
     void handleConstraintRemoved(const ConstraintId constraint);
@@ -122,6 +124,7 @@ TokenVariable<DomainType>::TokenVariable(const TokenId _parent,
   void TokenVariable<DomainType>::close(){
     Variable<DomainType>::close();
     this->m_integratedBaseDomain->close();
+    noteSingletonBaseDomain();
   }
 
   template <class DomainType>
@@ -144,6 +147,16 @@ TokenVariable<DomainType>::TokenVariable(const TokenId _parent,
       this->m_integratedBaseDomain->close();
 
     this->m_integratedBaseDomain->intersect(domain);
+    noteSingletonBaseDomain();
+  }
+
+  template <class DomainType>
+  void TokenVariable<DomainType>::noteSingletonBaseDomain(){
+    // A variable with one value in its base domain is specified by itself, not by a merged token
+    if(this->isSpecified() && this->m_baseDomain->isClosed() && this->m_baseDomain->isSingleton()){
+      m_isLocallySpecified = true;
+      m_localSpecifiedValue = this->m_baseDomain->getSingletonValue();
+    }
   }
 
   template <class DomainType>
-- 
2.43.0


From 15bf085cd36ff8721679f8bb78cba444dfc4cb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:23 +0000
Subject: [PATCH 067/124] fix: merging both ends of a temporal constraint into
 one timepoint was an error

---
 .../component/TemporalPropagator.cc               | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 93f1779..7fd046f 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -461,6 +461,21 @@ ConstraintId getConstraint(ConstrainedVariableId fromvar,
     check_error(startTp);
     check_error(endTp);
 
+    // Merging tokens may leave both ends of a constraint on the same timepoint. The network holds no
+    // constraint of a timepoint with itself: the distance is simply 0.
+    if(startTp == endTp) {
+      const bool hasDistance = constraint->getScope().size() == 3;
+      if(hasDistance || lb > 0) {
+        const ConstrainedVariableId var = (hasDistance ? constraint->getScope()[1] : start);
+        var->setCurrentPropagatingConstraint(constraint);
+        Domain& dom = Propagator::getCurrentDomain(var);
+        if(!hasDistance)
+          dom.empty();
+        else
+          dom.intersect(IntervalIntDomain(0, 0));
+      }
+      return;
+    }
 
     TemporalConstraint* c = m_tnet->addTemporalConstraint(*startTp,
                                                           *endTp,
-- 
2.43.0


From 0835b37e015e9df77174e1f1144eddf7ff515ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:23 +0000
Subject: [PATCH 068/124] fix: a constraint on a merged token gave its inactive
 variables timepoints

---
 src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 7fd046f..9bda3ba 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -1025,6 +1025,9 @@ TemporalConstraint* TemporalPropagator::updateConstraint(const ConstrainedVariab
 
 
   void TemporalPropagator::buffer(const ConstrainedVariableId var){
+    // An inactive variable, e.g. of a merged token, has no timepoint. It gets one when its constraints are activated.
+    if(!var->isActive())
+      return;
     if(m_varToTimepoint.find(var) == m_varToTimepoint.end())
       addTimepoint(var);
     else
-- 
2.43.0


From 74224a85906b653abbb494480311f59c948fa72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:02 +0000
Subject: [PATCH 069/124] fix: cancelling a token ordered on one of several
 timelines removed it from the timeline twice

---
 src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc b/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
index 1787531..9f248a1 100644
--- a/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
+++ b/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
@@ -146,8 +146,9 @@ namespace EUROPA {
 
       if(!active || !m_currentDomain.isMember(object)){
         debugMsg("ObjectTokenRelation:notifyRemovals", "Removing " << m_token->toString() << " from " << object->toString());
-	object->remove(m_token);
+	// Removal may relax the object variable, which gets back here before it returns
 	m_notifiedObjects.erase(object);
+	object->remove(m_token);
       } else {
 	startIndex++;
       }
-- 
2.43.0


From 1365c7734ab1454ff779b5803b408d4f888dbda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:02 +0000
Subject: [PATCH 070/124] fix: an ordering of a token relative to itself
 survived the removal of the token

---
 src/PLASMA/PlanDatabase/base/Object.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PLASMA/PlanDatabase/base/Object.cc b/src/PLASMA/PlanDatabase/base/Object.cc
index d85737b..4dedce8 100644
--- a/src/PLASMA/PlanDatabase/base/Object.cc
+++ b/src/PLASMA/PlanDatabase/base/Object.cc
@@ -195,6 +195,7 @@ const std::string& Object::getName() const {
     check_error(!Entity::isPurging());
 
     m_tokens.erase(token);
+    m_explicitConstraints.erase(token->getKey());
 
     // A set is used to avoid duplicate deletions
     std::set<ConstraintId> constraints;
-- 
2.43.0


From 049435235d5f1ab5bbebdc2f6341f26fbdd941e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:02 +0000
Subject: [PATCH 071/124] fix: freeing an ordering let a token that stays in
 the sequence leave its timeline

---
 src/PLASMA/PlanDatabase/base/Object.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/PlanDatabase/base/Object.cc b/src/PLASMA/PlanDatabase/base/Object.cc
index 4dedce8..d993488 100644
--- a/src/PLASMA/PlanDatabase/base/Object.cc
+++ b/src/PLASMA/PlanDatabase/base/Object.cc
@@ -597,8 +597,16 @@ void Object::constrain(const TokenId predecessor, const TokenId successor, bool
 
       TokenId predecessor = constraint->getScope()[0]->parent();
       TokenId successor = constraint->getScope()[1]->parent();
-      free(predecessor, successor, false);
+
+      // Only clean up the given token: the other one keeps its place on this object.
+      removePrecedenceConstraint(constraint);
+      clean(token);
+      m_planDatabase->notifyFreed(m_id, predecessor, successor);
     }
+    check_error(isValid());
+
+    if (!constraints.empty() && getPlanDatabase()->getConstraintEngine()->getAutoPropagation())
+      getPlanDatabase()->getConstraintEngine()->propagate();
   }
 
   bool Object::isValid() const {
-- 
2.43.0


From 3445dd1eef13181aab3e661df83a88927ab9a3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:02 +0000
Subject: [PATCH 072/124] fix: deleting an ordered token called its pure
 virtual start and end

---
 src/PLASMA/PlanDatabase/base/Token.cc              | 3 ++-
 src/PLASMA/PlanDatabase/base/Token.hh              | 6 +++---
 src/PLASMA/PlanDatabase/component/EventToken.cc    | 4 ++++
 src/PLASMA/PlanDatabase/component/EventToken.hh    | 2 ++
 src/PLASMA/PlanDatabase/component/IntervalToken.cc | 4 ++++
 src/PLASMA/PlanDatabase/component/IntervalToken.hh | 2 ++
 6 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/Token.cc b/src/PLASMA/PlanDatabase/base/Token.cc
index 8bb8689..9bd13af 100644
--- a/src/PLASMA/PlanDatabase/base/Token.cc
+++ b/src/PLASMA/PlanDatabase/base/Token.cc
@@ -152,7 +152,8 @@ Token::Token(const TokenId _master,
 }
 
   Token::~Token(){
-    handleDiscard();
+    if(!m_deleted) // Derived classes may have done it already
+      handleDiscard();
     m_id.remove();
   }
 
diff --git a/src/PLASMA/PlanDatabase/base/Token.hh b/src/PLASMA/PlanDatabase/base/Token.hh
index 9d4d450..a140ba2 100644
--- a/src/PLASMA/PlanDatabase/base/Token.hh
+++ b/src/PLASMA/PlanDatabase/base/Token.hh
@@ -520,13 +520,13 @@ namespace EUROPA {
     const PlanDatabaseId m_planDatabase;
 
 
-  private:
     /**
-     * @brief Handle deallocation
+     * @brief Handle deallocation. Derived classes that provide the start and the end must call it in
+     * their destructors: both are still in use while the token is being removed.
      */
     void handleDiscard();
 
-
+  private:
     bool isValid() const;
 
     /**
diff --git a/src/PLASMA/PlanDatabase/component/EventToken.cc b/src/PLASMA/PlanDatabase/component/EventToken.cc
index 25a3d1e..663e299 100644
--- a/src/PLASMA/PlanDatabase/component/EventToken.cc
+++ b/src/PLASMA/PlanDatabase/component/EventToken.cc
@@ -35,6 +35,10 @@ EventToken::EventToken(const PlanDatabaseId planDatabase,
     commonInit(timeBaseDomain);
   }
 
+  EventToken::~EventToken(){
+    handleDiscard();
+  }
+
   const TempVarId EventToken::start() const{return m_time;}
   const TempVarId EventToken::end() const{return m_time;}
   const TempVarId EventToken::getTime() const{return m_time;}
diff --git a/src/PLASMA/PlanDatabase/component/EventToken.hh b/src/PLASMA/PlanDatabase/component/EventToken.hh
index bba3379..ae7ce50 100644
--- a/src/PLASMA/PlanDatabase/component/EventToken.hh
+++ b/src/PLASMA/PlanDatabase/component/EventToken.hh
@@ -27,6 +27,8 @@ namespace EUROPA {
 	       const std::string& objectName = Token::noObject(),
 	       bool closed = true);
 
+    virtual ~EventToken();
+
     const TempVarId start() const;
     const TempVarId end() const;
     const TempVarId getTime() const;
diff --git a/src/PLASMA/PlanDatabase/component/IntervalToken.cc b/src/PLASMA/PlanDatabase/component/IntervalToken.cc
index 4318dd2..be7664b 100644
--- a/src/PLASMA/PlanDatabase/component/IntervalToken.cc
+++ b/src/PLASMA/PlanDatabase/component/IntervalToken.cc
@@ -42,6 +42,10 @@ IntervalToken::IntervalToken(const TokenId _master,
   commonInit(startBaseDomain, endBaseDomain, closed);
 }
 
+  IntervalToken::~IntervalToken(){
+    handleDiscard();
+  }
+
   const TempVarId IntervalToken::start() const{
     checkError(m_start.isValid(), m_start);
     return m_start;}
diff --git a/src/PLASMA/PlanDatabase/component/IntervalToken.hh b/src/PLASMA/PlanDatabase/component/IntervalToken.hh
index 4f21e79..2cac988 100644
--- a/src/PLASMA/PlanDatabase/component/IntervalToken.hh
+++ b/src/PLASMA/PlanDatabase/component/IntervalToken.hh
@@ -31,6 +31,8 @@ namespace EUROPA {
 		  const std::string& objectName = Token::noObject(),
 		  bool closed = true);
 
+    virtual ~IntervalToken();
+
     const TempVarId start() const;
     const TempVarId end() const;
 
-- 
2.43.0


From 623c3493536e10f9c9778a2d6b2137087cb8c1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:02 +0000
Subject: [PATCH 073/124] fix: freeing an ordering left neighbours
 unconstrained when other tokens had been put in between

---
 src/PLASMA/PlanDatabase/component/Timeline.cc | 25 ++++++++++++-------
 src/PLASMA/PlanDatabase/component/Timeline.hh |  2 +-
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/component/Timeline.cc b/src/PLASMA/PlanDatabase/component/Timeline.cc
index e601b9f..a19e7ce 100644
--- a/src/PLASMA/PlanDatabase/component/Timeline.cc
+++ b/src/PLASMA/PlanDatabase/component/Timeline.cc
@@ -380,9 +380,9 @@ Timeline::Timeline(const PlanDatabaseId planDatabase, const std::string& type,
     if (!predecessorRequired)
       startTok = removePredecessor(predecessor);
 
-    // If valid start and end tokens, currently unconstrained, and adjacemt
-    if (adjacent(startTok, endTok) && !isConstrainedToPrecede(startTok, endTok))
-      Object::constrain(startTok, endTok, false); // Add an implied constraint
+    // Other tokens may be in between, so close the gap around each of them
+    relink(startTok);
+    relink(endTok);
 
     check_error(isValid());
   }
@@ -473,12 +473,19 @@ Timeline::Timeline(const PlanDatabaseId planDatabase, const std::string& type,
     return(*pos);
   }
 
-  bool Timeline::adjacent(const TokenId x, const TokenId y) const {
-    if (x.isNoId() || y.isNoId())
-      return(false);
-    std::list<TokenId>::const_iterator pos = m_tokenIndex.find(x->getKey())->second;
-    ++pos;
-    return(pos != m_tokenSequence.end() && y == *pos);
+  void Timeline::relink(const TokenId token) {
+    if (token.isNoId() || m_tokenIndex.find(token->getKey()) == m_tokenIndex.end())
+      return;
+
+    std::list<TokenId>::const_iterator pos = m_tokenIndex.find(token->getKey())->second;
+    if (pos != m_tokenSequence.begin()) {
+      std::list<TokenId>::const_iterator prior = pos;
+      --prior;
+      if (!isConstrainedToPrecede(*prior, token))
+        Object::constrain(*prior, token, false); // Add an implied constraint
+    }
+    if (++pos != m_tokenSequence.end() && !isConstrainedToPrecede(token, *pos))
+      Object::constrain(token, *pos, false); // Add an implied constraint
   }
 
   void Timeline::unlink(const TokenId token) {
diff --git a/src/PLASMA/PlanDatabase/component/Timeline.hh b/src/PLASMA/PlanDatabase/component/Timeline.hh
index 15c58c9..9de0656 100644
--- a/src/PLASMA/PlanDatabase/component/Timeline.hh
+++ b/src/PLASMA/PlanDatabase/component/Timeline.hh
@@ -91,7 +91,7 @@ namespace EUROPA {
     void unlink(const TokenId token);
     TokenId removeSuccessor(const TokenId token);
     TokenId removePredecessor(const TokenId token);
-    bool adjacent(const TokenId x, const TokenId y) const;
+    void relink(const TokenId token);
 
 
     /**
-- 
2.43.0


From a6631374ab8158ae4e1d8036fc9d0a384785d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:09 +0000
Subject: [PATCH 074/124] fix: executing a guarded rule body that propagates
 re-entered the execution of scheduled rules

---
 src/PLASMA/RulesEngine/base/RuleInstance.cc |  3 +
 src/PLASMA/RulesEngine/base/RulesEngine.cc  | 74 ++++++++++-----------
 src/PLASMA/RulesEngine/base/RulesEngine.hh  | 16 ++++-
 3 files changed, 54 insertions(+), 39 deletions(-)

diff --git a/src/PLASMA/RulesEngine/base/RuleInstance.cc b/src/PLASMA/RulesEngine/base/RuleInstance.cc
index 95400d4..378bd58 100644
--- a/src/PLASMA/RulesEngine/base/RuleInstance.cc
+++ b/src/PLASMA/RulesEngine/base/RuleInstance.cc
@@ -134,6 +134,9 @@ RuleInstance::RuleInstance(const RuleInstanceId parent,
   RuleInstance::~RuleInstance(){
     handleDiscard();
 
+    if(!m_rulesEngine.isNoId())
+      m_rulesEngine->unschedule(m_id);
+
     // We do not delete the guard, since we NEVER allocate it. Always allocated in the parent.
     m_id.remove();
   }
diff --git a/src/PLASMA/RulesEngine/base/RulesEngine.cc b/src/PLASMA/RulesEngine/base/RulesEngine.cc
index 06d38b6..edeb317 100644
--- a/src/PLASMA/RulesEngine/base/RulesEngine.cc
+++ b/src/PLASMA/RulesEngine/base/RulesEngine.cc
@@ -65,8 +65,10 @@ namespace EUROPA{
     , m_listeners()
     , m_ruleInstancesToExecute()
     , m_ruleInstancesToUndo()
+    , m_executing()
+    , m_undoing()
     , m_deleted(false)
-    , m_executing(false)
+    , m_processing(false)
   {
     m_callback = (new RulesEngineCallback(m_planDb->getConstraintEngine(), m_id))->getId();
     check_error(m_planDb->getTokens().empty());
@@ -243,51 +245,47 @@ RulesEngine::~RulesEngine(){
     m_ruleInstancesToUndo.push_back(r);
   }
 
+  void RulesEngine::unschedule(const RuleInstanceId r) {
+    std::vector<RuleInstanceId>* lists[] = {&m_ruleInstancesToExecute, &m_ruleInstancesToUndo};
+    for(unsigned int i = 0; i < 2; i++)
+      lists[i]->erase(std::remove(lists[i]->begin(), lists[i]->end(), r), lists[i]->end());
+    // Those being processed may be under iteration, so only blank the entry
+    std::replace(m_executing.begin(), m_executing.end(), r, RuleInstanceId::noId());
+    std::replace(m_undoing.begin(), m_undoing.end(), r, RuleInstanceId::noId());
+  }
+
   bool RulesEngine::doRules() {
-    check_error(!m_executing);
-    m_executing = true;
+    // The body of a rule may cause propagation. Whatever that schedules has to wait for this pass to end.
+    if(m_processing)
+      return false;
+
+    ProcessingGuard guard(*this);
     debugMsg("RulesEngine:doRules", "Executing rules.");
-    
-    // std::sort(m_ruleInstancesToExecute.begin(), m_ruleInstancesToExecute.end(), EntityComparator<RuleInstanceId>());
-    // std::sort(m_ruleInstancesToUndo.begin(), m_ruleInstancesToUndo.end(), EntityComparator<RuleInstanceId>());
-    // std::vector<RuleInstanceId>::iterator execEnd = std::unique(m_ruleInstancesToExecute.begin(),
-    //                                                             m_ruleInstancesToExecute.end(),
-    //                                                             EntityComparator<RuleInstanceId>());
-    // std::vector<RuleInstanceId>::iterator undoEnd = std::unique(m_ruleInstancesToUndo.begin(),
-    //                                                             m_ruleInstancesToUndo.end(),
-    //                                                             EntityComparator<RuleInstanceId>());
-    std::vector<RuleInstanceId>::iterator execEnd = m_ruleInstancesToExecute.end();
-    std::vector<RuleInstanceId>::iterator undoEnd = m_ruleInstancesToUndo.end();
-    
+
+    m_executing.swap(m_ruleInstancesToExecute);
+    m_undoing.swap(m_ruleInstancesToUndo);
+
     bool retval = false;
 
-    debugMsg("RulesEngine:doRules", "Have " << m_ruleInstancesToExecute.size() << 
-	     " total rules in execution list, executing " << 
-	     std::distance(m_ruleInstancesToExecute.begin(), execEnd));
-    
-    for(std::vector<RuleInstanceId>::const_iterator it = m_ruleInstancesToExecute.begin(); it != execEnd; ++it) {
-      debugMsg("RulesEngine:doRules", 
-	       "In vector: " << (*it)->toString() << " : " <<
-	       ((*it)->isExecuted() ? "E" : "*") <<
-	       ((*it)->test() ? "T" : "*") <<
-	       ((*it)->hasEmptyGuard() ? "G" : "*"));
-    }
-    for(std::vector<RuleInstanceId>::iterator it = m_ruleInstancesToExecute.begin(); it != execEnd; ++it)
-      if(!(*it)->isExecuted() && (*it)->test()) {
-        debugMsg("RulesEngine:doRules", "Executing rule " << (*it)->toString());
-        (*it)->execute();
+    debugMsg("RulesEngine:doRules", "Have " << m_executing.size() << " total rules in execution list");
+
+    for(unsigned int i = 0; i < m_executing.size(); i++) {
+      RuleInstanceId r = m_executing[i];
+      if(!r.isNoId() && !r->isExecuted() && r->test()) {
+        debugMsg("RulesEngine:doRules", "Executing rule " << r->toString());
+        r->execute();
         retval = true;
       }
-    for(std::vector<RuleInstanceId>::iterator it = m_ruleInstancesToUndo.begin(); it != undoEnd; ++it)
-      if((*it)->isExecuted() && !(*it)->test() && !(*it)->hasEmptyGuard()) {
-        debugMsg("RulesEngine:doRules", "Undoing rule " << (*it)->toString());
-        (*it)->undo();
+    }
+    for(unsigned int i = 0; i < m_undoing.size(); i++) {
+      RuleInstanceId r = m_undoing[i];
+      if(!r.isNoId() && r->isExecuted() && !r->test() && !r->hasEmptyGuard()) {
+        debugMsg("RulesEngine:doRules", "Undoing rule " << r->toString());
+        r->undo();
         retval = true;
       }
-    m_ruleInstancesToExecute.clear();
-    m_ruleInstancesToUndo.clear();
-    debugMsg("RulesEngine:doRules", "Done executing rules " << m_executing << " returning " << (retval ? " true" : " false"));
-    m_executing = false;
+    }
+    debugMsg("RulesEngine:doRules", "Done executing rules, returning " << (retval ? " true" : " false"));
     return retval;
   }
 
diff --git a/src/PLASMA/RulesEngine/base/RulesEngine.hh b/src/PLASMA/RulesEngine/base/RulesEngine.hh
index 2b2cf61..c488f71 100644
--- a/src/PLASMA/RulesEngine/base/RulesEngine.hh
+++ b/src/PLASMA/RulesEngine/base/RulesEngine.hh
@@ -59,6 +59,7 @@ namespace EUROPA {
     bool isPending(const RuleInstanceId r) const;
     void scheduleForExecution(const RuleInstanceId r);
     void scheduleForUndoing(const RuleInstanceId r);
+    void unschedule(const RuleInstanceId r);
     bool doRules();
     bool hasWork() const;
     
@@ -71,8 +72,21 @@ namespace EUROPA {
     std::set<RulesEngineListenerId> m_listeners;
     std::vector<RuleInstanceId> m_ruleInstancesToExecute;
     std::vector<RuleInstanceId> m_ruleInstancesToUndo;
+    std::vector<RuleInstanceId> m_executing; /*!< Those doRules is processing */
+    std::vector<RuleInstanceId> m_undoing; /*!< Those doRules is processing */
     bool m_deleted;
-    bool m_executing;
+    bool m_processing; /*!< Set while doRules is running */
+
+    /** Marks doRules as running, however it is left. */
+    struct ProcessingGuard {
+      ProcessingGuard(RulesEngine& re) : m_re(re) {m_re.m_processing = true;}
+      ~ProcessingGuard() {
+        m_re.m_executing.clear();
+        m_re.m_undoing.clear();
+        m_re.m_processing = false;
+      }
+      RulesEngine& m_re;
+    };
   };
 }
 #endif
-- 
2.43.0


From 4e470f5bd344e9f6bd01f099e244d41b8fde2adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:09 +0000
Subject: [PATCH 075/124] fix: a guard on the field of an object never fired

---
 src/PLASMA/RulesEngine/base/RuleInstance.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/RulesEngine/base/RuleInstance.cc b/src/PLASMA/RulesEngine/base/RuleInstance.cc
index 378bd58..a272874 100644
--- a/src/PLASMA/RulesEngine/base/RuleInstance.cc
+++ b/src/PLASMA/RulesEngine/base/RuleInstance.cc
@@ -216,7 +216,9 @@ RuleInstance::RuleInstance(const RuleInstanceId parent,
       //testEQ or similar constraint and therefore may not be available to the planner
       for(std::vector<ConstrainedVariableId>::const_iterator it = guards.begin() + 1; 
           it != guards.end(); ++it) {
-        if(!((*it)->isSpecified() || (*it)->baseDomain().isSingleton()))
+        // A variable derived from others, like a field of an object, is never specified itself
+        if(!((*it)->isSpecified() || (*it)->baseDomain().isSingleton() ||
+             (!(*it)->canBeSpecified() && (*it)->lastDomain().isSingleton())))
           return false;
       }
       if(guards[0]->lastDomain().isSingleton()) {
-- 
2.43.0


From 4574373c7db62c6a0e5617b63532a36aa2cf581f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:09 +0000
Subject: [PATCH 076/124] fix: a guard comparing a variable with a set or an
 interval never fired

---
 src/PLASMA/NDDL/component/Interpreter.cc | 31 ++++++++++++++++++++++++
 src/PLASMA/NDDL/component/Interpreter.hh | 10 ++++++++
 2 files changed, 41 insertions(+)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index c0be9b0..13e46f4 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -517,10 +517,24 @@ bool isTimepoint(DataRef var) {
     return false;
   }
 
+  bool CExprBinary::isMembershipTest() const {
+    if (m_operator != "==" && m_operator != "!=")
+      return false;
+    const CExprValue* value = dynamic_cast<const CExprValue*>(m_rhs);
+    const ExprConstant* constant = (value != NULL ? dynamic_cast<const ExprConstant*>(value->getValue()) : NULL);
+    return constant != NULL && !constant->getDomain().isSingleton();
+  }
+
   bool CExprBinary::isSingletonOptimizable() {
     return (m_operator == "+" || m_operator == "-" || m_operator == "*");
   }
 
+  static DataTypeId unrestrictedNumericType(const DataTypeId type) {
+    if (!type->isNumeric() || type->isBool())
+      return type;
+    return type->minDelta() < 1 ? FloatDT::instance() : IntDT::instance();
+  }
+
   DataRef CExprBinary::eval(EvalContext& context) const {
       //Figure out constraint type.
       std::string constraint = "", returnType = "";
@@ -1176,6 +1190,23 @@ void createRelation(EvalContext& context,
   {
     bool isOpEquals = (m_guard->getOperator() == "equals" || m_guard->getOperator()=="==");
 
+    // The values to compare with may be given as a set or interval. Then the value of the variable must be a member.
+    const CExprBinary* membership = dynamic_cast<const CExprBinary*>(m_guard->getLhs());
+    if (membership != NULL && membership->isMembershipTest()) {
+      const CExprValue* value = static_cast<const CExprValue*>(membership->getRhs());
+      const Domain& domain = static_cast<const ExprConstant*>(value->getValue())->getDomain();
+      const bool positive = (isOpEquals == (membership->getOperator() == "=="));
+      ConstrainedVariableId var = membership->getLhs()->eval(context).getValue();
+      std::vector<ConstrainedVariableId> vars;
+      getVariableReferences(membership->getLhs(), context, vars);
+      context.getRuleInstance()->addChildRule(
+          new InterpretedRuleInstance(context.getRuleInstance()->getId(), var, domain, positive, vars, m_ifBody));
+      if (m_elseBody.size() > 0)
+        context.getRuleInstance()->addChildRule(
+            new InterpretedRuleInstance(context.getRuleInstance()->getId(), var, domain, !positive, vars, m_elseBody));
+      return DataRef::null;
+    }
+
     DataRef lhs = m_guard->getLhs()->eval(context);
 
     // TODO: this assumes that the variable is always on the lhs and the value on the rhs
diff --git a/src/PLASMA/NDDL/component/Interpreter.hh b/src/PLASMA/NDDL/component/Interpreter.hh
index b768dd7..a2fb905 100644
--- a/src/PLASMA/NDDL/component/Interpreter.hh
+++ b/src/PLASMA/NDDL/component/Interpreter.hh
@@ -30,6 +30,7 @@ class ExprConstant : public Expr {
   virtual const DataTypeId getDataType() const;
   virtual std::string toString() const;
   std::string getConstantValue() const;
+  const Domain& getDomain() const { return *m_domain; }
 
  protected:
   std::string m_type;
@@ -427,6 +428,8 @@ private:
 
   virtual void checkType();
 
+  const Expr* getValue() const { return m_value.get(); }
+
  protected:
   boost::scoped_ptr<Expr> m_value;
 };
@@ -460,6 +463,13 @@ class CExprBinary : public CExpr {
   virtual const CExpr* getLhs() const {return m_lhs;}
   virtual const CExpr* getRhs() const {return m_rhs;}
 
+  const std::string& getOperator() const {return m_operator;}
+
+  /**
+   * @brief True for a test of membership in a constant set or interval, as in x == {a, b} or x != [1 5]
+   */
+  bool isMembershipTest() const;
+
  protected:
   std::string m_operator;
   CExpr *m_lhs, *m_rhs;
-- 
2.43.0


From 94c0c037181fa528cf755b13574fe93cb0731deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:09 +0000
Subject: [PATCH 077/124] fix: arithmetic on restricted types restricted the
 result to the type of the left operand

---
 src/PLASMA/NDDL/component/Interpreter.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index 13e46f4..33983ef 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -584,9 +584,10 @@ bool isTimepoint(DataRef var) {
           //Get the data type.
           DataTypeId data;
           if (returnType == "") {
-              returnType = left.getValue()->getDataType()->getName().c_str();
-              data = left.getValue()->getDataType();
-              check_runtime_error(returnType == right.getValue()->getDataType()->getName().c_str(), "We don't support expressions with different types going in to one var (e.g. float + int)");
+              // The restriction of the operands' types, if any, says nothing about the result.
+              data = unrestrictedNumericType(left.getValue()->getDataType());
+              returnType = data->getName();
+              check_runtime_error(returnType == unrestrictedNumericType(right.getValue()->getDataType())->getName(), "We don't support expressions with different types going in to one var (e.g. float + int)");
           } else if (returnType == "bool") {
               data = BoolDT::instance();
           } else {
-- 
2.43.0


From 9f266c1c51eb40dd6ed8bed0d326a73c4b458257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:09 +0000
Subject: [PATCH 078/124] fix: a loop entered while the plan was inconsistent
 had no iterations ever after

---
 src/PLASMA/NDDL/component/Interpreter.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index 33983ef..9dfbb8f 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -1745,7 +1745,9 @@ void InterpretedRuleInstance::executeLoop(EvalContext& evalContext,
   // Create a local domain based on the objects included in the valueSet
   ConstrainedVariableId setVar = evalContext.getVar(valueSet.c_str());
   check_error(!setVar.isNoId(),"Loop var can't be NULL");
-  const Domain& setVarDomain = setVar->derivedDomain();
+  // derivedDomain() would empty the set if the plan is inconsistent, but the rule may stay in force once that is resolved
+  setVar->getConstraintEngine()->propagate();
+  const Domain& setVarDomain = setVar->lastDomain();
   debugMsg("Interpreter:InterpretedRule","set var for loop :" << setVar->toString());
   debugMsg("Interpreter:InterpretedRule","set var domain for loop:" << setVarDomain.toString());
   const ObjectDomain& loopObjectSet = dynamic_cast<const ObjectDomain&>(setVarDomain);
-- 
2.43.0


From 3639091b0d33aaa3577a2e5bdb02115a359138d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:09 +0000
Subject: [PATCH 079/124] fix: a guarded branch inside a loop could not refer
 to the loop variable

---
 src/PLASMA/RulesEngine/base/RuleInstance.cc | 22 +++++++++++++++++++++
 src/PLASMA/RulesEngine/base/RuleInstance.hh |  3 +++
 2 files changed, 25 insertions(+)

diff --git a/src/PLASMA/RulesEngine/base/RuleInstance.cc b/src/PLASMA/RulesEngine/base/RuleInstance.cc
index a272874..7e8e27d 100644
--- a/src/PLASMA/RulesEngine/base/RuleInstance.cc
+++ b/src/PLASMA/RulesEngine/base/RuleInstance.cc
@@ -66,6 +66,7 @@ RuleInstance::RuleInstance(const RuleInstanceId parent,
       m_isPositive(true), m_constraints(), m_childRules(), m_variables(), m_slaves(), 
       m_variablesByName(), m_slavesByName(), m_constraintsByName() {
   check_error(isValid());
+  inheritScope();
   setGuard(guards);
 }
 
@@ -81,6 +82,7 @@ RuleInstance::RuleInstance(const RuleInstanceId parent,
       m_isPositive(positive), m_constraints(), m_childRules(), m_variables(),
       m_slaves(), m_variablesByName(), m_slavesByName(), m_constraintsByName() {
   check_error(isValid());
+  inheritScope();
   setGuard(guards);
 }
 
@@ -95,6 +97,7 @@ RuleInstance::RuleInstance(const RuleInstanceId parent,
       m_isPositive(true), m_constraints(), m_childRules(), m_variables(), m_slaves(),
       m_variablesByName(), m_slavesByName(), m_constraintsByName() {
   check_error(isValid());
+  inheritScope();
   setGuard(guard, domain);
 }
 
@@ -110,6 +113,7 @@ RuleInstance::RuleInstance(const RuleInstanceId parent,
       m_isPositive(positive), m_constraints(), m_childRules(), m_variables(), 
       m_slaves(), m_variablesByName(), m_slavesByName(), m_constraintsByName() {
   check_error(isValid());
+  inheritScope();
   setGuard(guard, domain);
 }
 
@@ -123,6 +127,7 @@ RuleInstance::RuleInstance(const RuleInstanceId parent,
       m_isPositive(positive), m_constraints(), m_childRules(), m_variables(), 
       m_slaves(), m_variablesByName(), m_slavesByName(), m_constraintsByName() {
   check_error(isValid());
+  inheritScope();
   setGuard(guard, domain, guardComponents);
 }
 
@@ -522,6 +527,10 @@ ConstrainedVariableId RuleInstance::getVariable(const std::string& name) const {
       m_variablesByName.find(name);
   if(it != m_variablesByName.end())
     return it->second;
+
+  it = m_scopeVariables.find(name);
+  if(it != m_scopeVariables.end())
+    return it->second;
   else if (!m_parent.isNoId())
     return m_parent->getVariable(name);
   else if(getPlanDatabase()->isGlobalVariable(name))
@@ -539,6 +548,10 @@ TokenId RuleInstance::getSlave(const std::string& name) const {
   std::map<std::string, TokenId>::const_iterator it = m_slavesByName.find(name);
   if(it != m_slavesByName.end())
     return it->second;
+
+  it = m_scopeSlaves.find(name);
+  if(it != m_scopeSlaves.end())
+    return it->second;
   else if (!m_parent.isNoId())
     return m_parent->getSlave(name);
   else
@@ -561,6 +574,15 @@ ConstraintId RuleInstance::getConstraint(const std::string& name) const {
   }
 
 
+// The parent may reuse names later, in particular in the next iteration of a loop. What this instance
+// refers to is what they stand for now.
+void RuleInstance::inheritScope() {
+  m_scopeVariables = m_parent->m_variablesByName;
+  m_scopeVariables.insert(m_parent->m_scopeVariables.begin(), m_parent->m_scopeVariables.end());
+  m_scopeSlaves = m_parent->m_slavesByName;
+  m_scopeSlaves.insert(m_parent->m_scopeSlaves.begin(), m_parent->m_scopeSlaves.end());
+}
+
 void RuleInstance::commonInit() {
   const std::vector<ConstrainedVariableId>& vars = m_token->getVariables();
   for(std::vector<ConstrainedVariableId>::const_iterator it = vars.begin(); it != vars.end(); ++it){
diff --git a/src/PLASMA/RulesEngine/base/RuleInstance.hh b/src/PLASMA/RulesEngine/base/RuleInstance.hh
index 1ca1d98..3ca2459 100644
--- a/src/PLASMA/RulesEngine/base/RuleInstance.hh
+++ b/src/PLASMA/RulesEngine/base/RuleInstance.hh
@@ -277,6 +277,7 @@ namespace EUROPA{
 
     bool isValid() const;
     void commonInit();
+    void inheritScope();
 
     /**
      * @brief Test of a constraint is connected to a given token. This is true if any variable in the scope
@@ -301,6 +302,8 @@ namespace EUROPA{
     std::map<std::string, ConstrainedVariableId> m_variablesByName; /*!< Context lookup */
     std::map<std::string, TokenId> m_slavesByName; /*!< Context lookup */
     std::map<std::string, ConstraintId> m_constraintsByName; /*!< Context lookup */
+    std::map<std::string, ConstrainedVariableId> m_scopeVariables; /*!< Variables in scope where a child rule was introduced */
+    std::map<std::string, TokenId> m_scopeSlaves; /*!< Slaves in scope where a child rule was introduced */
   };
 }
 #endif
-- 
2.43.0


From 4ad18d6bf1117477b876e6847eda6bc00b06fcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:09 +0000
Subject: [PATCH 080/124] fix: constraints among outer subgoals survived the
 branch that posted them

---
 src/PLASMA/RulesEngine/base/RuleInstance.cc | 24 +++++++++++++++------
 src/PLASMA/RulesEngine/base/RuleInstance.hh |  5 +++++
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/PLASMA/RulesEngine/base/RuleInstance.cc b/src/PLASMA/RulesEngine/base/RuleInstance.cc
index 7e8e27d..443056c 100644
--- a/src/PLASMA/RulesEngine/base/RuleInstance.cc
+++ b/src/PLASMA/RulesEngine/base/RuleInstance.cc
@@ -313,14 +313,11 @@ void RuleInstance::undo() {
       ConstraintId constr = *it;
       checkError(constr.isValid(), constr);
 
-      // Only discard constraints that are connected to the master since the master may persist after the rule has cleaned up
-      // but the constraints should not. If it is not connected to the master then it applies to local variables or slave variables.
-      // if a full roll-back of the rule occurs, slaves and local variables will be deleted, causing a delete of the attendant constraints.
-      // In the event that a slave persists, as cann occur when the master is removed through termination, then the constraints among
-      // remaining slaves should also be retained
-      if(connectedToToken(constr, m_token)){
+      // Constraints have to go with the rule. The exception is when the master is removed through termination: slaves may
+      // then persist, and the constraints among those that do, which are not connected to the master, are retained.
+      if(!m_token->isTerminated() || connectedToToken(constr, m_token) || connectedToDiscardedSlave(constr)){
         debugMsg("RuleInstance:undo",
-                 "Removing connected constraint " << constr->toLongString());
+                 "Removing constraint " << constr->toLongString());
 	delete static_cast<Constraint*>(constr);
       }
     }
@@ -788,6 +785,19 @@ bool RuleInstance::connectedToToken(const ConstraintId constr,
   return false;
 }
 
+bool RuleInstance::connectedToDiscardedSlave(const ConstraintId constr) const {
+  for(std::vector<ConstrainedVariableId>::const_iterator it = constr->getScope().begin();
+      it != constr->getScope().end(); ++it){
+    const EntityId parent = (*it)->parent();
+    for(std::vector<TokenId>::const_iterator slaveIt = m_slaves.begin(); slaveIt != m_slaves.end(); ++slaveIt)
+      // A slave goes with its master unless something else refers to it
+      if(parent == *slaveIt && (*slaveIt)->refCount() == 1)
+        return true;
+  }
+
+  return false;
+}
+
 std::string RuleInstance::ruleExecutionContext() const {
   static const std::string TAB_DELIMITER("    ");
   std::stringstream ss;
diff --git a/src/PLASMA/RulesEngine/base/RuleInstance.hh b/src/PLASMA/RulesEngine/base/RuleInstance.hh
index 3ca2459..6a260f6 100644
--- a/src/PLASMA/RulesEngine/base/RuleInstance.hh
+++ b/src/PLASMA/RulesEngine/base/RuleInstance.hh
@@ -285,6 +285,11 @@ namespace EUROPA{
      */
     bool connectedToToken(const ConstraintId constraint, const TokenId token) const;
 
+  /**
+   * @brief Tests if a given constraint is on a variable of a slave that will not outlive the rule.
+   */
+  bool connectedToDiscardedSlave(const ConstraintId constr) const;
+
     /** ANALYSIS ROUTINES FOR DEBUGGING **/
     std::string ruleExecutionContext() const;
 
-- 
2.43.0


From 65b7f161212aaf5ad107a7fb27e3c92e7352c16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:09 +0000
Subject: [PATCH 081/124] fix: propagation reported an inconsistency that the
 rules had withdrawn

---
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index e990529..4926274 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -729,6 +729,10 @@ void ConstraintEngine::add(const PropagatorId propagator){
       for(std::list<PostPropagationCallbackId>::iterator it = m_callbacks.begin(); it != m_callbacks.end(); ++it)
         continueProp = ((**it)() || continueProp);
       m_autoPropagate = oldProp;
+
+      // What the callbacks retracted may have been the reason for the inconsistency, so it has to be found again
+      if(continueProp && hasEmptyVariables())
+        getViolationMgr().relaxEmptyVariables();
     }
 
     //m_propInProgress = false;
-- 
2.43.0


From d104978be211b08fade21cad274b470250f19560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:15 +0000
Subject: [PATCH 082/124] fix: a rule stayed in force after its guard was
 retracted while a guard variable was empty

---
 src/PLASMA/RulesEngine/base/RuleInstance.cc | 10 ++++++++++
 src/PLASMA/RulesEngine/base/RuleInstance.hh |  5 +++++
 src/PLASMA/RulesEngine/base/RulesEngine.cc  |  2 +-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/RulesEngine/base/RuleInstance.cc b/src/PLASMA/RulesEngine/base/RuleInstance.cc
index 443056c..3beab72 100644
--- a/src/PLASMA/RulesEngine/base/RuleInstance.cc
+++ b/src/PLASMA/RulesEngine/base/RuleInstance.cc
@@ -849,4 +849,14 @@ std::string RuleInstance::ruleExecutionContext() const {
     return false;
   }
 
+  bool RuleInstance::hasRetractedGuard() const {
+    if(m_guards.empty())
+      return false;
+    for(std::vector<ConstrainedVariableId>::const_iterator it = m_guards.begin() + (m_guardDomain != 0 ? 1 : 0);
+        it != m_guards.end(); ++it)
+      if((*it)->canBeSpecified() && !(*it)->isSpecified() && !(*it)->baseDomain().isSingleton())
+        return true;
+    return false;
+  }
+
 }
diff --git a/src/PLASMA/RulesEngine/base/RuleInstance.hh b/src/PLASMA/RulesEngine/base/RuleInstance.hh
index 6a260f6..f62d1bf 100644
--- a/src/PLASMA/RulesEngine/base/RuleInstance.hh
+++ b/src/PLASMA/RulesEngine/base/RuleInstance.hh
@@ -181,6 +181,11 @@ namespace EUROPA{
 
     bool hasEmptyGuard() const;
 
+    /**
+     * @brief Tests if a decision the guard depends on has been taken back. The guard does not hold then, whatever the domains say.
+     */
+    bool hasRetractedGuard() const;
+
   protected:
 
     /**
diff --git a/src/PLASMA/RulesEngine/base/RulesEngine.cc b/src/PLASMA/RulesEngine/base/RulesEngine.cc
index edeb317..3285ec0 100644
--- a/src/PLASMA/RulesEngine/base/RulesEngine.cc
+++ b/src/PLASMA/RulesEngine/base/RulesEngine.cc
@@ -279,7 +279,7 @@ RulesEngine::~RulesEngine(){
     }
     for(unsigned int i = 0; i < m_undoing.size(); i++) {
       RuleInstanceId r = m_undoing[i];
-      if(!r.isNoId() && r->isExecuted() && !r->test() && !r->hasEmptyGuard()) {
+      if(!r.isNoId() && r->isExecuted() && !r->test() && (!r->hasEmptyGuard() || r->hasRetractedGuard())) {
         debugMsg("RulesEngine:doRules", "Undoing rule " << r->toString());
         r->undo();
         retval = true;
-- 
2.43.0


From 08736261a384dc61af01ed2ca4fb3c776eb03cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:59 +0000
Subject: [PATCH 083/124] fix: a variable that is relaxed no longer counts as
 empty (the solver took the stale conflict for a given one)

---
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 4926274..16fb1ce 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -870,6 +870,10 @@ void ConstraintEngine::notify(const ConstrainedVariableId source,
     // Now this should be true for all
     check_error(variable->lastRelaxed() == m_cycleCount);
 
+    // If this was one of the empty variables, it no longer is.
+    if(!variable->lastDomain().isEmpty())
+      getViolationMgr().removeEmptyVariable(variable);
+
     if(hasEmptyVariables()) {
       // If this isn't one of the empty variables, relax the empty variables.
       if (!getViolationMgr().isEmpty(variable))
-- 
2.43.0


From c1f5eeaf9e1cad3f12a56b72601f87531ada26e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:59 +0000
Subject: [PATCH 084/124] fix: the type check of constraint arguments accepts
 the data types of a schema (testEq, condAllDiff etc. on declared bools)

---
 src/PLASMA/ConstraintEngine/base/ConstraintTypeChecking.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintTypeChecking.hh b/src/PLASMA/ConstraintEngine/base/ConstraintTypeChecking.hh
index 273ab81..4e65ec7 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintTypeChecking.hh
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintTypeChecking.hh
@@ -436,14 +436,14 @@ struct Same {
 
 /**
  * @struct Type
- * Predicate.  Checks that a data type is of a specific type by comparing DataType pointers.
+ * Predicate.  Checks that a data type is of a specific type by name (a schema has instances of its own).
  */
 template<typename T>
 struct Type {
   Type(){}
   Type(type_iterator, type_iterator) {}
   bool operator()(const std::string&, DataTypeId dt, std::ostream&) const {
-    return T::instance() == dt;
+    return T::instance() == dt || T::instance()->getName() == dt->getName();
   }
   std::string description() const {return T::instance()->getName();}
 };
-- 
2.43.0


From 9e3a05cb2780f6cacd7195cae103f3ce269f2027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:59 +0000
Subject: [PATCH 085/124] fix: a statement whose evaluation fails is not
 deleted twice

---
 src/PLASMA/NDDL/base/antlr/NDDL3Tree.g | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
index 860fb3f..fda07ca 100644
--- a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
+++ b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
@@ -104,9 +104,9 @@ nddl
 		      if (child != NULL) { 
                   boost::scoped_ptr<Expr> c(child);
 		          debugMsg("NddlInterpreter:nddl","Evaluating:" << child->toString());
+                  CTX->SymbolTable->popFromCleanupStack();
                   evalExpr(CTX,child);
 		          debugMsg("NddlInterpreter:nddl","Done evaluating:" << child->toString());
-                  CTX->SymbolTable->popFromCleanupStack();
                   checkError(CTX->SymbolTable->cleanupStackSize() == 0,
                              CTX->SymbolTable->cleanupStackSize());
 		          // TODO!!: systematically deal with memory mgmt for all Exprs.
-- 
2.43.0


From 60be956cc007165a5e241626920d95e7df8fe1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:59 +0000
Subject: [PATCH 086/124] fix: a conflict found before a step is backtracked
 out of when there are decisions to undo

---
 src/PLASMA/Solvers/base/Solver.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/Solvers/base/Solver.cc b/src/PLASMA/Solvers/base/Solver.cc
index c41fe21..b3250b1 100644
--- a/src/PLASMA/Solvers/base/Solver.cc
+++ b/src/PLASMA/Solvers/base/Solver.cc
@@ -299,9 +299,16 @@ const std::string& Solver::getName() const { return m_name;}
 
       // If inconsistent, before doing anything, there is no solution.
       if(!conflictLevelOk()){
-        m_exhausted = true;
         debugMsg("Solver:step", "No solution prior to stepping. Conflict before propagation: " << m_baseConflictLevel << ", after propagation:" << m_db->getConstraintEngine()->getViolation());
-        publish(notifyExhausted);
+        // A pending decision is not the reason, but those made before may be
+        if(m_activeDecision.isId() && !m_activeDecision->isExecuted()){
+          publish(notifyDeleted,m_activeDecision);
+          delete static_cast<DecisionPoint*>(m_activeDecision);
+          m_activeDecision = DecisionPointId::noId();
+        }
+        m_exhausted = backtrack();
+        if(m_exhausted)
+          publish(notifyExhausted);
         return;
       }
 
-- 
2.43.0


From 4ed8126b0094e82542978b96f16035e982a26482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:59 +0000
Subject: [PATCH 087/124] fix: backtracking or resetting below the depth a run
 started at is no time-out

---
 src/PLASMA/Solvers/base/Solver.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/Solvers/base/Solver.cc b/src/PLASMA/Solvers/base/Solver.cc
index b3250b1..119f9c6 100644
--- a/src/PLASMA/Solvers/base/Solver.cc
+++ b/src/PLASMA/Solvers/base/Solver.cc
@@ -332,7 +332,7 @@ const std::string& Solver::getName() const { return m_name;}
       }
 
       if(m_maxSteps <= getStepCount() - m_stepCountFloor || 
-         m_maxDepth < getDepth() - m_depthFloor){
+         (getDepth() > m_depthFloor && m_maxDepth < getDepth() - m_depthFloor)){
         debugMsg("Solver:step", 
                  "Timeout!  Max steps: " << m_maxSteps << " step (above floor) " << 
                  getStepCount() - m_stepCountFloor <<
@@ -470,6 +470,8 @@ const std::string& Solver::getName() const { return m_name;}
       }
 
       m_stepCount = 0;
+      m_stepCountFloor = 0;
+      m_depthFloor = getDepth();
       m_noFlawsFound = false;
       m_exhausted = false;
       m_timedOut = false;
@@ -498,6 +500,8 @@ const std::string& Solver::getName() const { return m_name;}
       // Now backtrack the last choice
       m_exhausted = backtrack();
       m_stepCount = 0;
+      m_stepCountFloor = 0;
+      m_depthFloor = getDepth();
       m_noFlawsFound = false;
       m_timedOut = false;
 
-- 
2.43.0


From 4d5b8532435dcdec301efbd282327a2bb099254b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:59 +0000
Subject: [PATCH 088/124] fix: iterating over flaws no longer loses the first
 flaw of the next manager

---
 src/PLASMA/Solvers/base/Solver.cc | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/PLASMA/Solvers/base/Solver.cc b/src/PLASMA/Solvers/base/Solver.cc
index 119f9c6..a0f39b2 100644
--- a/src/PLASMA/Solvers/base/Solver.cc
+++ b/src/PLASMA/Solvers/base/Solver.cc
@@ -570,23 +570,11 @@ Solver::FlawIterator::FlawIterator(const FlawManagers& flawManagers)
       if(done())
         return EntityId::noId();
 
-      IteratorId it = (*m_it);
-      //if current iterator is done, move to the next one
-      //and return that iterator's next
-      if(it->done()) {
-        ++m_it;
-        return next();
-      }
+      EntityId retval = (*m_it)->next();
 
-      EntityId retval = EntityId::noId();
-      //get the next entity
-      retval = it->next();
-
-      //it's possible that it's returning a noId because
-      //it's nearly done, so the previous call should bump it
-      //into doneness.  call next to bump the meta-iterator forward.
-      if(it->done())
-        next();
+      // move on to the next iterator with something to visit, so that done() works consistently
+      while(m_it != m_iterators.end() && (*m_it)->done())
+        ++m_it;
 
       return retval;
     }
-- 
2.43.0


From 683cded11e1c607490829a913f062176ff1293dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:39 +0000
Subject: [PATCH 089/124] fix: an assignment of a class member or parameter
 with "in" is not dropped

---
 src/PLASMA/NDDL/base/antlr/NDDL3.g | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/NDDL/base/antlr/NDDL3.g b/src/PLASMA/NDDL/base/antlr/NDDL3.g
index 26a8bb6..2269848 100644
--- a/src/PLASMA/NDDL/base/antlr/NDDL3.g
+++ b/src/PLASMA/NDDL/base/antlr/NDDL3.g
@@ -174,7 +174,8 @@ qualified
     ;
 
 assignment
-    :   qualified ('in' | '=') initializer ';' -> ^('=' qualified initializer)
+    :   qualified '=' initializer ';' -> ^('=' qualified initializer)
+    |   qualified 'in' initializer ';' -> ^('=' qualified initializer)
     ;
     
 initializer
-- 
2.43.0


From b75361e2cf55a5d2094e2b3e0c357be7c6f73ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:39 +0000
Subject: [PATCH 090/124] fix: a variable may be initialised with parentheses

---
 src/PLASMA/NDDL/base/antlr/NDDL3Tree.g | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
index fda07ca..e185dbe 100644
--- a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
+++ b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
@@ -216,7 +216,7 @@ variableInitialization[const DataTypeId& dataType] returns [Expr* result]
    const char* varName; 
 }
     :   (   name=IDENT { varName = c_str($name.text->chars); }
-        |   ^('=' name=IDENT  { varName = c_str($name.text->chars); } initExpr=initializer[varName])
+        |   ^(('='|'(') name=IDENT  { varName = c_str($name.text->chars); } initExpr=initializer[varName])
         )
         {
             if(initExpr != NULL)
-- 
2.43.0


From 3679311b549c936a7820a080f08545a4fe07c393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:39 +0000
Subject: [PATCH 091/124] fix: contains_end has the end of the target precede
 that of the origin

---
 src/PLASMA/NDDL/component/Interpreter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index 9dfbb8f..0edb999 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -1099,7 +1099,7 @@ void createRelation(EvalContext& context,
   }
   else if (relationName == "contains_end") {
     makeStrictPrecedenceRelation(origin, start, target, end);
-    makeRelation(precedes, origin, end, target, end);
+    makeRelation(precedes, target, end, origin, end);
   }
   else if (relationName == "starts_after") {
     makeStrictPrecedenceRelation(target, start, origin, start);
-- 
2.43.0


From 1176ebca2ec90f9137cf481af2247a1b9339bc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:39 +0000
Subject: [PATCH 092/124] fix: the relation equal of the grammar means equals

---
 src/PLASMA/NDDL/component/Interpreter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index 0edb999..b58f993 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -1107,7 +1107,7 @@ void createRelation(EvalContext& context,
   else if (relationName == "starts_before") {
     makeStrictPrecedenceRelation(origin, start, target, start);
   }
-  else if (relationName == "equals") {
+  else if (relationName == "equals" || relationName == "equal") {
     makeRelation(concurrent, origin, start, target, start);
     makeRelation(concurrent, target, end, origin, end);
     makeRelation(eq, origin, duration, target, duration);
-- 
2.43.0


From 9027675076bdb5cce2e75f9fdc27f2ddafeb9cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:39 +0000
Subject: [PATCH 093/124] fix: errors of the tree grammar are reported

---
 src/PLASMA/NDDL/component/NddlInterpreter.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PLASMA/NDDL/component/NddlInterpreter.cc b/src/PLASMA/NDDL/component/NddlInterpreter.cc
index a2ec9b1..dfcf13e 100644
--- a/src/PLASMA/NDDL/component/NddlInterpreter.cc
+++ b/src/PLASMA/NDDL/component/NddlInterpreter.cc
@@ -237,6 +237,8 @@ std::string NddlInterpreter::interpret(std::istream& ins, const std::string& sou
   try {
     treeParser->nddl(treeParser);
     // TODO: report treeParser antlr errors the same way we do it for tree builder lexer and parser
+    if (treeParser->pTreeParser->rec->state->errorCount > 0)
+      symbolTable.addError("The program contains constructs that can't be interpreted");
   }
   catch (const std::string&) {
     debugMsg("NddlInterpreter:error",
-- 
2.43.0


From 8277eb418b43429fce232a00c8d6f1ef5dd4d33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:39 +0000
Subject: [PATCH 094/124] fix: propagation that ends with an exception leaves
 the engine able to propagate

---
 .../ConstraintEngine/base/ConstraintEngine.cc  | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 16fb1ce..de0937b 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -713,7 +713,13 @@ void ConstraintEngine::add(const PropagatorId propagator){
         
         debugMsg("ConstraintEngine:propagate",
                  "Executing " << activePropagator->getName() << " propagator.");
-        activePropagator->execute();
+        try {
+          activePropagator->execute();
+        }
+        catch (...) {
+          m_propInProgress = false;
+          throw;
+        }
         activePropagator = getNextPropagator();
       }
 
@@ -726,8 +732,14 @@ void ConstraintEngine::add(const PropagatorId propagator){
       //effects
       bool oldProp = m_autoPropagate;
       m_autoPropagate = false; 
-      for(std::list<PostPropagationCallbackId>::iterator it = m_callbacks.begin(); it != m_callbacks.end(); ++it)
-        continueProp = ((**it)() || continueProp);
+      try {
+        for(std::list<PostPropagationCallbackId>::iterator it = m_callbacks.begin(); it != m_callbacks.end(); ++it)
+          continueProp = ((**it)() || continueProp);
+      }
+      catch (...) {
+        m_autoPropagate = oldProp;
+        throw;
+      }
       m_autoPropagate = oldProp;
 
       // What the callbacks retracted may have been the reason for the inconsistency, so it has to be found again
-- 
2.43.0


From ae5db701e8877cef82b394fea812a20b1bc34e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:39 +0000
Subject: [PATCH 095/124] fix: temporal constraints made of expressions relate
 timepoints only

---
 src/PLASMA/NDDL/component/Interpreter.cc | 28 +++++++++++++++++-------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index b58f993..b7d6867 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -511,6 +511,14 @@ bool isTimepoint(DataRef var) {
   return dynamic_cast< TokenVariable<IntervalIntDomain>* >(cvar) != NULL
       && (cvar->getName() == "end" || cvar->getName() == "start");
 }
+
+// Distances in the temporal network are integer intervals.
+bool isDistance(DataRef var) {
+  const Domain& dom = var.getValue()->lastDomain();
+  return !isTimepoint(var)
+      && dynamic_cast<const IntervalIntDomain*>(&dom) != NULL
+      && dynamic_cast<const BoolDomain*>(&dom) == NULL;
+}
 }
 
   bool CExprBinary::isSingleton() {
@@ -596,13 +604,8 @@ bool isTimepoint(DataRef var) {
 
           if (m_returnArgument) {
               output = m_returnArgument->eval(context);
-              //Make addEq a temporal constraint.
-              if (isTimepoint(left) || isTimepoint(right) || isTimepoint(output)) {
-                  if (constraint == "addEq") {
-                      check_runtime_error(!isTimepoint(left) || !isTimepoint(right) || !isTimepoint(output), "You can't add two timepoints up to make a third time point.");
-
-                      constraint = "temporalDistance";
-                  }
+              if (constraint == "addEq") {
+                  check_runtime_error(!isTimepoint(left) || !isTimepoint(right) || !isTimepoint(output), "You can't add two timepoints up to make a third time point.");
               }
           } else {
               //Create the variable name
@@ -640,7 +643,8 @@ bool isTimepoint(DataRef var) {
           }
       } else { //No return value
           //Detect temporal variables
-          if (isTimepoint(left) || isTimepoint(right)) {
+          //A variable that isn't a timepoint may be used as a distance, so it can't become one.
+          if (isTimepoint(left) && isTimepoint(right)) {
               if (constraint == "eq") {
                   constraint = "concurrent";
               } else if (constraint == "leq") {
@@ -656,6 +660,14 @@ bool isTimepoint(DataRef var) {
           }
       }
 
+      //Make addEq between two timepoints and their distance a temporal constraint.
+      if (constraint == "addEq" && isTimepoint(DataRef(args[2]))) {
+          if (isTimepoint(DataRef(args[1])))
+              std::swap(args[0], args[1]);
+          if (isTimepoint(DataRef(args[0])) && isDistance(DataRef(args[1])))
+              constraint = "temporalDistance";
+      }
+
       makeConstraint(context, constraint.c_str(), args, m_violationMsg.c_str());
 
       return output;
-- 
2.43.0


From 7148840946152f4159c5b08b6816909d6ff02019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:39 +0000
Subject: [PATCH 096/124] fix: an error in the body of a predicate doesn't end
 the process

---
 src/PLASMA/NDDL/component/Interpreter.cc | 31 ++++++++++++++++++++----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index b7d6867..b35f930 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -1364,8 +1364,16 @@ InterpretedToken::InterpretedToken(
     // TODO: Pass in EvalContext to give access to class or global context
     TokenEvalContext context(NULL,getId());
 
-    for (unsigned int i=0; i < body.size(); i++)
-        body[i]->eval(context);
+    try {
+      for (unsigned int i=0; i < body.size(); i++)
+          body[i]->eval(context);
+    }
+    catch (...) {
+      // The token is about to be destroyed, which only a complete token can be.
+      if (isIncomplete())
+        close();
+      throw;
+    }
 
     if (autoClose)
       close();
@@ -1455,8 +1463,15 @@ TokenId InterpretedTokenType::createInstance(const PlanDatabaseId planDb,
   else {
     token = parentType->createInstance(planDb,name,rejectable,isFact);
     InterpretedToken* it = id_cast<InterpretedToken>(token);
-    if (it != NULL)
-      it->commonInit(m_body,false);
+    if (it != NULL) {
+      try {
+        it->commonInit(m_body,false);
+      }
+      catch (...) {
+        delete static_cast<Token*>(token);
+        throw;
+      }
+    }
   }
 
   return token;
@@ -1482,7 +1497,13 @@ TokenId InterpretedTokenType::createInstance(const TokenId master, const std::st
     // TODO: Hack! this makes it impossible to extend native tokens
     // class hierarchy needs to be fixed to avoid this cast
     InterpretedToken* it = id_cast<InterpretedToken>(token);
-    it->commonInit(m_body,false);
+    try {
+      it->commonInit(m_body,false);
+    }
+    catch (...) {
+      delete static_cast<Token*>(token);
+      throw;
+    }
   }
 
   return token;
-- 
2.43.0


From eeb84aa18d2c18e008ae0d70217e34b32622c920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:39 +0000
Subject: [PATCH 097/124] fix: an initial value restricts the declared type of
 a variable

---
 src/PLASMA/NDDL/component/Interpreter.cc | 56 +++++++++++++++++++++---
 1 file changed, 49 insertions(+), 7 deletions(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index b35f930..c2997bd 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -120,6 +120,22 @@ void makeConstraint(EvalContext& context,
   }
 
 namespace {
+// The values a declared type shares with the domain a variable of that type is initialised to.
+Domain* restriction(const DataTypeId type, const Domain& value) {
+  Domain* retval = type->baseDomain().copy();
+  if (type->isNumeric() && value.isNumeric() && value.isEnumerated() && !retval->isEnumerated()) {
+    // An interval can't hold a set of values.
+    std::list<edouble> values;
+    value.getValues(values);
+    delete retval;
+    retval = new NumericDomain(values, type);
+    retval->intersect(type->baseDomain());
+  }
+  else
+    retval->intersect(value);
+  return retval;
+}
+
 std::string getAutoName(const std::string& prefix) {
   static int cnt = 0;
   std::stringstream sstr;
@@ -2023,9 +2039,17 @@ ConstrainedVariableId ExprVarDeclaration::makeGlobalVar(EvalContext& context) co
   ConstrainedVariableId v;
 
   if (initValue != NULL) {
+    const ConstrainedVariableId rhs = initValue->eval(context).getValue();
+    boost::scoped_ptr<Domain> bd(rhs->baseDomain().copy());
+    if (!isClass(context, type)) {
+      // The initial value restricts the declared type, it doesn't replace it.
+      bd.reset(restriction(getDataType(), rhs->baseDomain()));
+      check_runtime_error(bd->isOpen() || !bd->isEmpty(),
+                          rhs->baseDomain().toString() + " is not a value for " + type + " " + name);
+    }
     v = pdb->createVariable(
         type.c_str(),
-        initValue->eval(context).getValue()->baseDomain(), // baseDomain
+        *bd, // baseDomain
         name.c_str(),
         false, // isTmpVar
         m_canBeSpecified
@@ -2104,16 +2128,26 @@ ConstrainedVariableId ExprVarDeclaration::makeRuleVar(RuleInstanceEvalContext& c
   }
   else {
     // TODO: do we really need to pass the base domain?
-    const Domain& baseDomain = context.getRuleInstance()->getPlanDatabase()->getSchema()->getCESchema()->baseDomain(typeName.c_str());
+    const DataTypeId dt = context.getRuleInstance()->getPlanDatabase()->getSchema()->getCESchema()->getDataType(typeName.c_str());
+    boost::scoped_ptr<Domain> bd(dt->baseDomain().copy());
+    if (m_initValue != NULL) {
+      const ConstrainedVariableId value = m_initValue->eval(context).getValue();
+      // There are no derived domains in an inconsistent plan.
+      bd.reset(restriction(dt, value->getConstraintEngine()->propagate() ? value->derivedDomain() : value->baseDomain()));
+      check_runtime_error(bd->isOpen() || !bd->isEmpty(),
+                          value->toString() + " is not a value for " + typeName + " " + m_name);
+    }
     localVar = context.getRuleInstance()->addLocalVariable(
-        baseDomain,
+        *bd,
         m_canBeSpecified,
         m_name
                                                            );
   }
 
-  if (m_initValue != NULL)
-    localVar->restrictBaseDomain(m_initValue->eval(context).getValue()->derivedDomain());
+  if (m_initValue != NULL && context.isClass(typeName)) {
+    const ConstrainedVariableId value = m_initValue->eval(context).getValue();
+    localVar->restrictBaseDomain(value->getConstraintEngine()->propagate() ? value->derivedDomain() : value->baseDomain());
+  }
 
   context.addVar(m_name.c_str(),localVar);
   debugMsg("Interpreter:InterpretedRule","Added RuleInstance local var:" << localVar->toLongString());
@@ -2154,8 +2188,16 @@ ConstrainedVariableId ExprVarDeclaration::makeRuleVar(RuleInstanceEvalContext& c
           ObjectId object = Entity::getTypedEntity<Object>(thisVar->derivedDomain().getSingletonValue());
           check_error(object->getVariable(varName) == ConstrainedVariableId::noId());
           ConstrainedVariableId rhsValue = m_rhs->eval(context).getValue();
-          const Domain& domain = rhsValue->derivedDomain();
-          ConstrainedVariableId v = object->addVariable(domain,varName);
+          boost::scoped_ptr<Domain> domain(rhsValue->derivedDomain().copy());
+          const DataTypeId type = m_lhs->getDataType();
+          if (!isClass(context, type->getName())) {
+            // The value restricts the declared type of the member, it doesn't replace it.
+            domain.reset(restriction(type, rhsValue->derivedDomain()));
+            check_runtime_error(domain->isOpen() || !domain->isEmpty(),
+                                rhsValue->derivedDomain().toString() + " is not a value for " +
+                                type->getName() + " " + varName);
+          }
+          ConstrainedVariableId v = object->addVariable(*domain,varName);
           lhs = DataRef(v);
           debugMsg("Interpreter:InterpretedObject","Initialized variable:" << object->getName() << "." << varName << " to " << rhsValue->derivedDomain().toString() << " in constructor");
       }
-- 
2.43.0


From 4fd17815e3e9a659205fc4bf80fb440fd0243a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:39 +0000
Subject: [PATCH 098/124] fix: subexpressions in the body of a predicate need
 no parameters of its own

---
 src/PLASMA/NDDL/component/Interpreter.cc | 10 ++++++++--
 src/PLASMA/PlanDatabase/base/Token.cc    |  7 +++++++
 src/PLASMA/PlanDatabase/base/Token.hh    |  5 +++++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index c2997bd..c907ede 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -2074,15 +2074,21 @@ ConstrainedVariableId ExprVarDeclaration::makeTokenVar(TokenEvalContext& context
   check_runtime_error(token->getVariable(parameterName,false) == ConstrainedVariableId::noId(),
                       "Token parameter "+parameterName+ " already exists!");
 
+  // The variable of a subexpression isn't a parameter of the predicate.
+  if (!m_canBeSpecified) {
+    ConstrainedVariableId var = token->addPseudoVariable(getDataType()->baseDomain(), parameterName);
+    context.addVar(parameterName.c_str(), var);
+    return var;
+  }
+
   // This is a hack needed because TokenVariable is parametrized by the domain arg to addParameter
   ConstrainedVariableId parameter;
   const DataTypeId parameterDataType = getDataType();
 
   // same as completeObjectParam in NddlRules.hh
   if(initValue != NULL) {
-    Domain* bd = parameterDataType->baseDomain().copy();
     ConstrainedVariableId rhs = initValue->eval(context).getValue();
-    bd->intersect(rhs->lastDomain());
+    Domain* bd = restriction(parameterDataType, rhs->lastDomain());
     parameter = token->addParameter(
         *bd,
         parameterName
diff --git a/src/PLASMA/PlanDatabase/base/Token.cc b/src/PLASMA/PlanDatabase/base/Token.cc
index 9bd13af..5a8d59c 100644
--- a/src/PLASMA/PlanDatabase/base/Token.cc
+++ b/src/PLASMA/PlanDatabase/base/Token.cc
@@ -1007,6 +1007,13 @@ bool Token::canBeTerminated(eint) const{
     return result;
   }
 
+  ConstrainedVariableId Token::addPseudoVariable(const Domain& baseDomain, const std::string& name){
+    ConstrainedVariableId var =
+        (new Variable<Domain>(m_planDatabase->getConstraintEngine(), baseDomain, true, false, name, m_id))->getId();
+    m_pseudoVariables.push_back(var);
+    return var;
+  }
+
   void Token::addLocalVariable(const ConstrainedVariableId var){
     m_localVariables.insert(var);
   }
diff --git a/src/PLASMA/PlanDatabase/base/Token.hh b/src/PLASMA/PlanDatabase/base/Token.hh
index a140ba2..041638b 100644
--- a/src/PLASMA/PlanDatabase/base/Token.hh
+++ b/src/PLASMA/PlanDatabase/base/Token.hh
@@ -363,6 +363,11 @@ namespace EUROPA {
      */
     static bool isStateVariable(const ConstrainedVariableId var);
 
+    /**
+     * @brief Adds an internally generated variable, which lives as long as the token but is not one of its parameters.
+     */
+    ConstrainedVariableId addPseudoVariable(const Domain& baseDomain, const std::string& name);
+
     void addLocalVariable(const ConstrainedVariableId var);
     void removeLocalVariable(const ConstrainedVariableId var);
     const ConstrainedVariableSet& getLocalVariables();
-- 
2.43.0


From 5d66a90285a27f0f3a146ee9d76f4fc03d0ea808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:39 +0000
Subject: [PATCH 099/124] fix: names can be looked up in an inconsistent plan

---
 src/PLASMA/NDDL/component/Interpreter.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index c907ede..a8172ba 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -282,8 +282,10 @@ DataRef ExprVarRef::eval(EvalContext& context) const {
       }
 
       for (;idx<m_vars.size();idx++) {
-        check_runtime_error(var->derivedDomain().isSingleton(),varName+" must be singleton to be able to get to "+m_vars[idx]);
-        ObjectId object = Entity::getTypedEntity<Object>(var->derivedDomain().getSingletonValue());
+        // The object a name stands for is known whether or not the plan is consistent.
+        const Domain& objects = (var->baseDomain().isSingleton() ? var->baseDomain() : var->derivedDomain());
+        check_runtime_error(objects.isSingleton(),varName+" must be singleton to be able to get to "+m_vars[idx]);
+        ObjectId object = Entity::getTypedEntity<Object>(objects.getSingletonValue());
         var = object->getVariable(object->getName()+"."+m_vars[idx]);
         varName += "." + m_vars[idx];
 
-- 
2.43.0


From 3f4b35668ce249e42360975fde52f1f920f751d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:40 +0000
Subject: [PATCH 100/124] fix: constructors may have arguments of restricted
 types

---
 src/PLASMA/PlanDatabase/base/ObjectType.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/PlanDatabase/base/ObjectType.cc b/src/PLASMA/PlanDatabase/base/ObjectType.cc
index afef1e0..405275b 100644
--- a/src/PLASMA/PlanDatabase/base/ObjectType.cc
+++ b/src/PLASMA/PlanDatabase/base/ObjectType.cc
@@ -334,6 +334,18 @@ std::vector<ObjectTypeId> ObjectTypeMgr::getAllObjectTypes() const {
     return signature;
   }
 
+namespace {
+// A typedef is known to the plan database's schema as an enumeration without values,
+// but its values are those of the type it restricts
+bool matchesTypedef(const SchemaId schema, const std::string& typeName, const Domain& argument) {
+  const CESchemaId ceSchema = schema->getCESchema();
+  if((!schema->isEnum(typeName) && !schema->isEnum(argument.getTypeName())) || !ceSchema->isDataType(typeName))
+    return false;
+  const DataTypeId dataType = ceSchema->getDataType(typeName);
+  return (dataType->isNumeric() || dataType->isString()) && dataType->isAssignableFrom(argument.getDataType());
+}
+}
+
 /**
  * We must consider the possibility that the precise signature will not be registered, but a more abstracted signature may
  * work. For example. Suppose we have the following: Foo:int:float:Bar:Bing as a signature for a Foo factory. We are presented with
@@ -383,7 +395,8 @@ ObjectFactoryId ObjectTypeMgr::getFactory(const SchemaId schema,
     for (unsigned int j=1;j<signatureTypes.size();j++){
       if(schema->isType(arguments[j-1]->getTypeName()) &&
          schema->isType(signatureTypes[j])){
-        if(!schema->isA(arguments[j-1]->getTypeName(), signatureTypes[j])){
+        if(!matchesTypedef(schema, signatureTypes[j], *arguments[j-1]) &&
+           !schema->isA(arguments[j-1]->getTypeName(), signatureTypes[j])){
           found = false;
           break;
         }
-- 
2.43.0


From fabb1ac02afa3681bb56b34078b6c6658b61a909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:00 +0000
Subject: [PATCH 101/124] fix: a typedef restricts the type it is made from

---
 src/PLASMA/NDDL/component/Interpreter.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index a8172ba..ba342b3 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -1918,7 +1918,11 @@ RuleInstanceId InterpretedRuleFactory::createInstance(const TokenId token,
   DataRef ExprTypedef::eval(EvalContext& context) const
   {
       const std::string& name = m_name.c_str();
-      const Domain& domain = *m_baseDomain;
+      // A type restricts the one it is made from, it doesn't replace it.
+      boost::scoped_ptr<Domain> restricted(restriction(m_baseType, *m_baseDomain));
+      const Domain& domain = *restricted;
+      check_runtime_error(domain.isOpen() || !domain.isEmpty(),
+                          m_baseDomain->toString() + " has no value of type " + m_baseType->getName());
 
       debugMsg("Interpreter:typedef","Defining type:" << name);
 
-- 
2.43.0


From 10d77c195ef14480977e0c6b0a32b7dd87955f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:44 +0000
Subject: [PATCH 102/124] fix: a constraint with too few arguments is refused
 rather than reading past them

---
 .../base/ConstraintTypeChecking.hh              | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintTypeChecking.hh b/src/PLASMA/ConstraintEngine/base/ConstraintTypeChecking.hh
index 4e65ec7..ac57249 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintTypeChecking.hh
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintTypeChecking.hh
@@ -86,9 +86,8 @@
  *
  * Assertions can be combined with the logical operator `And`.
  * And takes two template expressions.  When evaluated, it will evaluate both expressions
- * and return the logical conjunction of their evaluation.  It always evaluates both of its
- * arguments in order to present error messages from both checks so the user doesn't have
- * to re-run the checking process after fixing the error message from one.
+ * and return the logical conjunction of their evaluation.  The second is only evaluated if
+ * the first holds, so it may rely on the number of arguments that the first requires.
  *
  * Composition
  * 
@@ -175,7 +174,7 @@ struct Nth {
                   std::ostream& os) const {
     
     Check c;
-    if(start == end) {
+    if(std::distance(start, end) <= N) {
       os << "Constraint " << name << " ran out of arguments before checking " <<
           c.description() << std::endl;
       return false;
@@ -275,10 +274,10 @@ struct And {
   bool operator()(const std::string& name, type_iterator start, type_iterator end,
                   std::ostream& os) const {
     A m_a(start, end);
+    if(!m_a(name, start, end, os))
+      return false;
     B m_b(start, end);
-    bool a = m_a(name, start, end, os);
-    bool b = m_b(name, start, end, os);
-    return a && b;
+    return m_b(name, start, end, os);
   }
   bool operator()(const std::string& name, DataTypeId dt, std::ostream& os) const {
     bool retval = true;
@@ -314,9 +313,11 @@ struct Mutually {
     Check m_c(start, end);
     type_iterator begin = Start()(start, end);
     type_iterator finish = End()(start, end);
+    bool retval = true;
+    if(begin == finish)
+      return retval;
     type_iterator next = begin;
     std::advance(next, 1);
-    bool retval = true;
     for(; next != finish; ++begin, ++next) {
       retval = (*this)(name, *begin, *next, os) && retval;
     }
-- 
2.43.0


From 3d965ab3d34c1a3ae8911376c92b6aeb0766ebaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:44 +0000
Subject: [PATCH 103/124] fix: an interval without values is refused

---
 src/PLASMA/NDDL/base/antlr/NDDL3Tree.g | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
index e185dbe..09ac8d3 100644
--- a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
+++ b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
@@ -355,6 +355,12 @@ numericInterval returns [Expr* result]
         {      
             edouble lb = lower->getSingletonValue();
             edouble ub = upper->getSingletonValue();
+            if (ub < lb) {
+                std::string interval = "["+lower->toString()+", "+upper->toString()+"]";
+                delete lower;
+                delete upper;
+                reportSemanticError(CTX,"No value is in "+interval);
+            }
             Domain* baseDomain;
                     
             if (lower->getTypeName()=="float" || 
-- 
2.43.0


From b87b82f30b6752d6aee26878b03b651ecdc0367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:44 +0000
Subject: [PATCH 104/124] fix: the arguments of an unknown method or a wrong
 function call are deleted once

---
 src/PLASMA/NDDL/base/antlr/NDDL3Tree.g | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
index 09ac8d3..8a92819 100644
--- a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
+++ b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
@@ -1015,9 +1015,6 @@ methodInvocation returns [Expr* result]
             
         MethodId method = CTX->SymbolTable->getMethod(mName.c_str(),v,args);
         if (method.isNoId()) {
-            delete v;
-            cleanup(args.begin(), args.end());
-            args.clear();
             reportSemanticError(CTX,"Method "+mName+" is not defined");
         }   
         result = new ExprMethodCall(method,v,args);
@@ -1070,16 +1067,12 @@ cexpression returns [CExpr* result]
             CFunctionId func = CTX->SymbolTable->getCFunction(fName.c_str(),args);
             
             if (func.isNoId())  {
-                cleanup(args.begin(), args.end());
-                args.clear();
                 reportSemanticError(CTX, "CFunction does not exist: " + fName);
             }
             try {
                 CTX->SymbolTable->checkCFunction(fName, args);
             }
             catch(const std::string& errorMsg) {
-                cleanup(args.begin(), args.end());
-                args.clear();
                 reportSemanticError(CTX, errorMsg);
             }
             result = new CExprFunction(func, args);
-- 
2.43.0


From a900e36f7dadb56924bebc2bd256c235945ecc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:44 +0000
Subject: [PATCH 105/124] fix: only what can be compared with bool can be
 enforced

---
 src/PLASMA/NDDL/base/antlr/NDDL3Tree.g | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
index 8a92819..61a6ca1 100644
--- a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
+++ b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
@@ -1119,6 +1119,13 @@ enforceExpression returns [Expr* result]
                 con = new ExprConstant(dom->getTypeName().c_str(), dom); 
                 args.push_back(value);
                 args.push_back(con);    
+                try {
+                    CTX->SymbolTable->checkConstraint("eq", args);
+                }
+                catch (const std::string& msg) {
+                    delete con;
+                    reportSemanticError(CTX, msg);
+                }
                 result = new ExprConstraint("eq", args, "");
                 CTX->SymbolTable->popFromCleanupStack();
                 CTX->SymbolTable->pushToCleanupStack(result);
-- 
2.43.0


From a7c2a0e9ccc80edb6e4513400e641a0ec3af8110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:44 +0000
Subject: [PATCH 106/124] fix: objects are not created with empty members while
 the plan is inconsistent

---
 src/PLASMA/NDDL/component/Interpreter.cc   | 24 ++++++++++++++--------
 src/PLASMA/PlanDatabase/base/ObjectType.cc |  6 ++++--
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index ba342b3..aee54ec 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -72,6 +72,12 @@ const SchemaId getSchema(EvalContext& context)
   return getPDB(context)->getSchema();
 }
 
+// derivedDomain() is empty as long as the plan is inconsistent
+const Domain& knownDomain(const ConstrainedVariableId var)
+{
+  return (var->getConstraintEngine()->propagate() ? var->derivedDomain() : var->baseDomain());
+}
+
 // TODO: move this to the eval contexts to make it cleaner
 void makeConstraint(EvalContext& context,
                     const std::string& name,
@@ -332,13 +338,13 @@ DataRef ExprVarRef::eval(EvalContext& context) const {
     std::vector<const Domain*> arguments;
     for (unsigned int i=0; i < m_argExprs.size(); i++) {
       DataRef arg = m_argExprs[i]->eval(context);
-      arguments.push_back(&(arg.getValue()->derivedDomain()));
+      arguments.push_back(&knownDomain(arg.getValue()));
     }
 
     // TODO: using ObjectEvalContext may be cleaner?
     ConstrainedVariableId thisVar = context.getVar("this");
     ObjectId thisObject =
-      (thisVar.isId() ? Entity::getTypedEntity<Object>(thisVar->derivedDomain().getSingletonValue()) : ObjectId::noId());
+      (thisVar.isId() ? Entity::getTypedEntity<Object>(thisVar->baseDomain().getSingletonValue()) : ObjectId::noId());
     std::string prefix = (thisObject.isId() ? thisObject->getName() + "." : "");
 
     std::string name(prefix+m_objectName);
@@ -2145,7 +2151,7 @@ ConstrainedVariableId ExprVarDeclaration::makeRuleVar(RuleInstanceEvalContext& c
     if (m_initValue != NULL) {
       const ConstrainedVariableId value = m_initValue->eval(context).getValue();
       // There are no derived domains in an inconsistent plan.
-      bd.reset(restriction(dt, value->getConstraintEngine()->propagate() ? value->derivedDomain() : value->baseDomain()));
+      bd.reset(restriction(dt, knownDomain(value)));
       check_runtime_error(bd->isOpen() || !bd->isEmpty(),
                           value->toString() + " is not a value for " + typeName + " " + m_name);
     }
@@ -2158,7 +2164,7 @@ ConstrainedVariableId ExprVarDeclaration::makeRuleVar(RuleInstanceEvalContext& c
 
   if (m_initValue != NULL && context.isClass(typeName)) {
     const ConstrainedVariableId value = m_initValue->eval(context).getValue();
-    localVar->restrictBaseDomain(value->getConstraintEngine()->propagate() ? value->derivedDomain() : value->baseDomain());
+    localVar->restrictBaseDomain(knownDomain(value));
   }
 
   context.addVar(m_name.c_str(),localVar);
@@ -2197,21 +2203,21 @@ ConstrainedVariableId ExprVarDeclaration::makeRuleVar(RuleInstanceEvalContext& c
       ConstrainedVariableId thisVar = context.getVar("this");
       // TODO: modify interpreted object constructor to add vars upfront so that this if stmt isn't necessary
       if (thisVar.isId()) {
-          ObjectId object = Entity::getTypedEntity<Object>(thisVar->derivedDomain().getSingletonValue());
+          ObjectId object = Entity::getTypedEntity<Object>(thisVar->baseDomain().getSingletonValue());
           check_error(object->getVariable(varName) == ConstrainedVariableId::noId());
           ConstrainedVariableId rhsValue = m_rhs->eval(context).getValue();
-          boost::scoped_ptr<Domain> domain(rhsValue->derivedDomain().copy());
+          boost::scoped_ptr<Domain> domain(knownDomain(rhsValue).copy());
           const DataTypeId type = m_lhs->getDataType();
           if (!isClass(context, type->getName())) {
             // The value restricts the declared type of the member, it doesn't replace it.
-            domain.reset(restriction(type, rhsValue->derivedDomain()));
+            domain.reset(restriction(type, knownDomain(rhsValue)));
             check_runtime_error(domain->isOpen() || !domain->isEmpty(),
-                                rhsValue->derivedDomain().toString() + " is not a value for " +
+                                knownDomain(rhsValue).toString() + " is not a value for " +
                                 type->getName() + " " + varName);
           }
           ConstrainedVariableId v = object->addVariable(*domain,varName);
           lhs = DataRef(v);
-          debugMsg("Interpreter:InterpretedObject","Initialized variable:" << object->getName() << "." << varName << " to " << rhsValue->derivedDomain().toString() << " in constructor");
+          debugMsg("Interpreter:InterpretedObject","Initialized variable:" << object->getName() << "." << varName << " to " << knownDomain(rhsValue).toString() << " in constructor");
       }
       else {
           lhs = m_lhs->eval(context);
diff --git a/src/PLASMA/PlanDatabase/base/ObjectType.cc b/src/PLASMA/PlanDatabase/base/ObjectType.cc
index 405275b..b22d851 100644
--- a/src/PLASMA/PlanDatabase/base/ObjectType.cc
+++ b/src/PLASMA/PlanDatabase/base/ObjectType.cc
@@ -711,7 +711,7 @@ void* ObjectFactoryEvalContext::getElement(const std::string& name) const {
 
     DataRef ExprConstructorSuperCall::eval(EvalContext& context) const
     {
-      ObjectId object = Entity::getTypedEntity<Object>(context.getVar("this")->derivedDomain().getSingletonValue());
+      ObjectId object = Entity::getTypedEntity<Object>(context.getVar("this")->baseDomain().getSingletonValue());
 
       std::vector<const Domain*> arguments;
 
@@ -726,7 +726,9 @@ void* ObjectFactoryEvalContext::getElement(const std::string& name) const {
     {
       for (unsigned int i=0; i < m_argExprs.size(); i++) {
         DataRef arg = m_argExprs[i]->eval(context);
-        arguments.push_back(&(arg.getValue()->derivedDomain()));
+        // derivedDomain() is empty as long as the plan is inconsistent
+        ConstrainedVariableId value = arg.getValue();
+        arguments.push_back(value->getConstraintEngine()->propagate() ? &(value->derivedDomain()) : &(value->baseDomain()));
       }
     }
 }
-- 
2.43.0


From 0575e3c5d0b0c9b2543b991fc558e5c17813c844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:44 +0000
Subject: [PATCH 107/124] fix: an NDDL error without a location is reported

---
 src/PLASMA/NDDL/component/NddlInterpreter.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/NDDL/component/NddlInterpreter.cc b/src/PLASMA/NDDL/component/NddlInterpreter.cc
index dfcf13e..074800c 100644
--- a/src/PLASMA/NDDL/component/NddlInterpreter.cc
+++ b/src/PLASMA/NDDL/component/NddlInterpreter.cc
@@ -240,7 +240,9 @@ std::string NddlInterpreter::interpret(std::istream& ins, const std::string& sou
     if (treeParser->pTreeParser->rec->state->errorCount > 0)
       symbolTable.addError("The program contains constructs that can't be interpreted");
   }
-  catch (const std::string&) {
+  catch (const std::string& msg) {
+    if (symbolTable.getErrors().empty())
+      symbolTable.reportError(treeParser,msg);
     debugMsg("NddlInterpreter:error",
              "nddl parser halted on error:" << symbolTable.getErrors());
     return symbolTable.getErrors();
-- 
2.43.0


From 4516d1188cc3b7468199bfb711b37ff4bf2b7306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:44 +0000
Subject: [PATCH 108/124] fix: NDDL methods refuse missing or unsuitable
 arguments

---
 src/PLASMA/PlanDatabase/component/Methods.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/component/Methods.cc b/src/PLASMA/PlanDatabase/component/Methods.cc
index e1d47bd..4484572 100644
--- a/src/PLASMA/PlanDatabase/component/Methods.cc
+++ b/src/PLASMA/PlanDatabase/component/Methods.cc
@@ -39,6 +39,15 @@ ObjectId varToObject(const ConstrainedVariableId v)
 }
 }
 
+namespace {
+// args[0] is what the method is called on.
+void checkArgCount(const std::string& method, const std::vector<ConstrainedVariableId>& args,
+                   unsigned long atLeast, unsigned long atMost) {
+  checkRuntimeError(args.size() > atLeast && args.size() <= atMost + 1,
+                    method << " can't have " << args.size() - 1 << " arguments");
+}
+}
+
 DataRef PDBClose::eval(EvalContext& context, const std::vector<ConstrainedVariableId>&) const
 {
     getCtxPDB(context)->close();
@@ -76,7 +85,10 @@ const DataTypeId VariableMethod::getReturnType()
 
 DataRef SpecifyVariable::eval(EvalContext& context, ConstrainedVariableId var, const std::vector<ConstrainedVariableId>& args) const
 {
+    checkArgCount(getName(),args,1,1);
     const Domain& ad = args[1]->lastDomain();
+    checkRuntimeError(var->getDataType()->canBeCompared(args[1]->getDataType()),
+                      var->toString() << " can't be specified to " << ad.toString());
     if (ad.isSingleton())
         getCtxPDB(context)->specify(var,ad.getSingletonValue());
     else
@@ -117,6 +129,7 @@ const DataTypeId ObjectMethod::getReturnType()
 
 DataRef ConstrainToken::eval(EvalContext& context, ObjectId obj, const std::vector<ConstrainedVariableId>& args) const
 {
+    checkArgCount(getName(),args,1,2);
     TokenId pred = varToToken(args[1]);
     TokenId succ = (args.size()==3 ? varToToken(args[2]) : pred);
     getCtxPDB(context)->constrain(obj,pred,succ);
@@ -126,6 +139,7 @@ DataRef ConstrainToken::eval(EvalContext& context, ObjectId obj, const std::vect
 
 DataRef FreeToken::eval(EvalContext& context, ObjectId obj, const std::vector<ConstrainedVariableId>& args) const
 {
+    checkArgCount(getName(),args,1,2);
     TokenId pred = varToToken(args[1]);
     TokenId succ = (args.size()==3 ? varToToken(args[2]) : pred);
     getCtxPDB(context)->free(obj,pred,succ);
@@ -161,6 +175,7 @@ DataRef ActivateToken::eval(EvalContext& context, TokenId tok, const std::vector
 
 DataRef MergeToken::eval(EvalContext& context, TokenId tok, const std::vector<ConstrainedVariableId>& args) const
 {
+    checkArgCount(getName(),args,1,1);
     TokenId activeToken = varToToken(args[1]);
     getCtxPDB(context)->merge(tok,activeToken);
     return DataRef::null;
-- 
2.43.0


From 8998dceb4aef8ed40071a2aacc562b84e18a8621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:38 +0000
Subject: [PATCH 109/124] fix: a relaxed transaction is moved to the instants
 of its new bounds

---
 src/PLASMA/Resource/base/Profile.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/PLASMA/Resource/base/Profile.cc b/src/PLASMA/Resource/base/Profile.cc
index cca2d16..6d280a8 100644
--- a/src/PLASMA/Resource/base/Profile.cc
+++ b/src/PLASMA/Resource/base/Profile.cc
@@ -270,18 +270,22 @@ void Profile::transactionTimeChanged(const TransactionId e,
       debugMsg("Profile:handleTimeChanged",
                "Handling relaxation of transaction " << e << " at time " <<
                e->time()->toString() << " with quantity " << e->quantity()->toString());
-      ProfileIterator it(m_id, startTime, endTime);
       addInstantsForBounds(e);
       std::vector<eint> emptyInstants;
-      while(!it.done()) {
-        InstantId inst = it.getInstant();
-        if(!containsChange(inst))
-          emptyInstants.push_back(inst->getTime());
+      //the new bounds need not contain the old ones: a specified variable relaxes to the value it was given
+      for(std::map<eint, InstantId>::iterator it = m_instants.begin(); it != m_instants.end(); ++it) {
+        InstantId inst = it->second;
+        if(inst->getTime() < startTime || inst->getTime() > endTime) {
+          if(inst->getTransactions().find(e) == inst->getTransactions().end())
+            continue;
+          inst->removeTransaction(e);
+        }
         else if(inst->getTransactions().find(e) == inst->getTransactions().end())
           inst->addTransaction(e);
         else
           inst->updateTransaction(e);
-        it.next();
+        if(!containsChange(inst))
+          emptyInstants.push_back(inst->getTime());
       }
       for(std::vector<eint>::iterator emptyIt = emptyInstants.begin();
           emptyIt != emptyInstants.end(); ++emptyIt) {
-- 
2.43.0


From 0abed52dc38613bb0b1a2ba74a3cfcec0afb8072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:38 +0000
Subject: [PATCH 110/124] fix: flow profiles recompute all levels that a change
 can affect

---
 src/PLASMA/Resource/component/FlowProfile.cc | 219 +++++--------------
 src/PLASMA/Resource/component/FlowProfile.hh |   1 +
 2 files changed, 54 insertions(+), 166 deletions(-)

diff --git a/src/PLASMA/Resource/component/FlowProfile.cc b/src/PLASMA/Resource/component/FlowProfile.cc
index 29f4bd4..2b385dc 100644
--- a/src/PLASMA/Resource/component/FlowProfile.cc
+++ b/src/PLASMA/Resource/component/FlowProfile.cc
@@ -163,6 +163,10 @@ void FlowProfile::initRecompute(InstantId inst) {
   
   for(std::set<TransactionId>::const_iterator it = m_transactions.begin(); 
       it != m_transactions.end(); ++it) {
+    // those open when the previous computation ended are not necessarily open here
+    m_lowerLevelGraph->removeTransaction(*it);
+    m_upperLevelGraph->removeTransaction(*it);
+
     if((*it)->time()->lastDomain().getUpperBound() < inst->getTime()) {
       m_upperClosedLevel = m_upperClosedLevel + 
           ((*it)->isConsumer() ? 
@@ -183,6 +187,11 @@ void FlowProfile::initRecompute(InstantId inst) {
 
     	debugMsg("FlowProfile:initRecompute","");
 
+    	for(std::set<TransactionId>::const_iterator it = m_transactions.begin(); it != m_transactions.end(); ++it) {
+    		m_lowerLevelGraph->removeTransaction(*it);
+    		m_upperLevelGraph->removeTransaction(*it);
+    	}
+
     	if( m_recalculateLowerLevel )
     		m_lowerLevelGraph->reset();
 
@@ -451,6 +460,21 @@ Order FlowProfile::getOrdering( const TransactionId t1, const TransactionId t2 )
 	m_upperLevelGraph->enableAtOrBefore( t1, t2 );
     }
 
+/**
+ * Levels have to be computed again from the given time on. A change reaches beyond the transaction's own bounds, which
+ * may have moved since, so that there is no time after which the difference to the previous levels is known.
+ */
+void FlowProfile::recomputeFrom(const eint time) {
+  eint start = time;
+
+  if( m_recomputeInterval.isValid() ) {
+    start = std::min( start, m_recomputeInterval->getStartTime() );
+    delete static_cast<ProfileIterator*>(m_recomputeInterval);
+  }
+
+  m_recomputeInterval = (new ProfileIterator( getId(), start, PLUS_INFINITY ))->getId();
+}
+
 void FlowProfile::handleTransactionAdded(const TransactionId t) {
   check_error( t.isValid() );
 
@@ -463,32 +487,12 @@ void FlowProfile::handleTransactionAdded(const TransactionId t) {
   m_recalculateLowerLevel = true;
   m_recalculateUpperLevel = true;
 
-  eint startRecalculation = PLUS_INFINITY;
-  eint endRecalculation = MINUS_INFINITY;
-
-  if( ProfileIteratorId::noId() != m_recomputeInterval )
-  {
-    startRecalculation = std::min( m_recomputeInterval->getStartTime(),
-                                   static_cast<eint>(t->time()->lastDomain().getLowerBound()));
-  }
-  else
-  {
-    startRecalculation = static_cast<eint>(t->time()->lastDomain().getLowerBound());
-  }
-
-  // startRecalculation = MINUS_INFINITY;
-  endRecalculation = PLUS_INFINITY;
-
-  if( ProfileIteratorId::noId() != m_recomputeInterval )
-    delete static_cast<ProfileIterator*>(m_recomputeInterval);
-
-  m_recomputeInterval = (new ProfileIterator( getId(), startRecalculation, endRecalculation ))->getId();
+  recomputeFrom( static_cast<eint>(t->time()->lastDomain().getLowerBound()) );
 
   m_previousTimeBounds[ t ] =
       std::make_pair(static_cast<eint>(t->time()->lastDomain().getLowerBound()),
                      static_cast<eint>(t->time()->lastDomain().getUpperBound()));
 
-  debugMsg("FlowProfile:handleTransactionAdded","Set interval to [" << startRecalculation << "," << endRecalculation << "]");
 }
 
 void FlowProfile::enableTransaction( const TransactionId t, const InstantId inst )
@@ -513,25 +517,14 @@ void FlowProfile::handleTransactionRemoved( const TransactionId t ) {
   m_lowerLevelContribution.erase( t );
   m_upperLevelContribution.erase( t );
 
-  eint startRecalculation = PLUS_INFINITY;
-  eint endRecalculation = MINUS_INFINITY;
-
-  if( ProfileIteratorId::noId() != m_recomputeInterval )
-  {
-    startRecalculation = std::min( m_recomputeInterval->getStartTime(),
-                                   static_cast<eint>(t->time()->lastDomain().getLowerBound()));
-  }
-  else
-  {
-    startRecalculation = static_cast<eint>(t->time()->lastDomain().getLowerBound());
-  }
+  m_orderings.clear();
+  m_orderedAt.clear();
 
-  endRecalculation = PLUS_INFINITY;
+  TransactionId2IntIntPair::const_iterator ite = m_previousTimeBounds.find( t );
 
-  if(m_recomputeInterval.isValid())
-    delete static_cast<ProfileIterator*>(m_recomputeInterval);
+  check_error( ite != m_previousTimeBounds.end() );
 
-  m_recomputeInterval = (new ProfileIterator( getId(), startRecalculation, endRecalculation ))->getId();
+  recomputeFrom( (*ite).second.first );
 
   m_previousTimeBounds.erase( t );
 }
@@ -543,64 +536,26 @@ void FlowProfile::handleTransactionTimeChanged(const TransactionId t,
   m_recalculateLowerLevel = true;
   m_recalculateUpperLevel = true;
 
-  eint startRecalculation = PLUS_INFINITY;
-  eint endRecalculation = MINUS_INFINITY;
+  // the instants at which the transaction was, or is now, open have to be computed again: remember the earliest of them
+  TransactionId2IntIntPair::iterator ite = m_previousTimeBounds.find( t );
 
-  switch( type) {
-    case DomainListener::UPPER_BOUND_DECREASED:
-    case DomainListener::RESTRICT_TO_SINGLETON:
-    case DomainListener::SET_TO_SINGLETON:
-    case DomainListener::LOWER_BOUND_INCREASED:
-    case DomainListener::BOUNDS_RESTRICTED:
-      {
-        TransactionId2IntIntPair::const_iterator ite = m_previousTimeBounds.find( t );
-
-        // we should have the previous value!
-        check_error( ite != m_previousTimeBounds.end() );
-
-        eint previousStart =  (*ite).second.first;
-        eint previousEnd =  (*ite).second.second;
+  // we should have the previous value!
+  check_error( ite != m_previousTimeBounds.end() );
 
-        if( ProfileIteratorId::noId() != m_recomputeInterval )
-        {
-          startRecalculation = std::min( m_recomputeInterval->getStartTime(), previousStart );
-          endRecalculation = std::max( m_recomputeInterval->getEndTime(), previousEnd );
-        }
-        else
-        {
-          startRecalculation = previousStart;
-          endRecalculation = previousEnd;
-        }
-      }
-      break;
-    case DomainListener::RESET:
-    case DomainListener::RELAXED:
-      {
-        if( ProfileIteratorId::noId() != m_recomputeInterval ) {
-          startRecalculation = std::min(m_recomputeInterval->getStartTime(),
-                                        static_cast<eint>(t->time()->lastDomain().getLowerBound()));
-          endRecalculation = std::max(m_recomputeInterval->getEndTime(),
-                                      static_cast<eint>(t->time()->lastDomain().getUpperBound()));
-        }
-        else {
-          startRecalculation = static_cast<eint>(t->time()->lastDomain().getLowerBound());
-          endRecalculation = static_cast<eint>(t->time()->lastDomain().getUpperBound());
-        }
-      }
-      break;
-    case DomainListener::REFTIME_CHANGED:
-    case DomainListener::VALUE_REMOVED:
-    case DomainListener::CLOSED:
-    case DomainListener::OPENED:
-    case DomainListener::EMPTIED:
-    default:
-      break;
-  };
+  if( type != DomainListener::EMPTIED ) {
+    (*ite).second.first = std::min( (*ite).second.first,
+                                    static_cast<eint>(t->time()->lastDomain().getLowerBound()) );
+    (*ite).second.second = std::max( (*ite).second.second,
+                                     static_cast<eint>(t->time()->lastDomain().getUpperBound()) );
+  }
 
-  if(m_recomputeInterval.isValid())
-    delete static_cast<ProfileIterator*>(m_recomputeInterval);
+  // an ordering that followed from the bounds no longer holds when they are relaxed
+  if( type == DomainListener::RESET || type == DomainListener::RELAXED ) {
+    m_orderings.clear();
+    m_orderedAt.clear();
+  }
 
-  m_recomputeInterval = (new ProfileIterator( getId(), startRecalculation, endRecalculation ))->getId();
+  recomputeFrom( (*ite).second.first );
 
   debugMsg("FlowProfile:handleTransactionTimeChanged","TransactionId (" << t->getId() << ") change " << type );
 }
@@ -661,26 +616,11 @@ void FlowProfile::handleTransactionQuantityChanged(const TransactionId t,
       break;
   };
 
-  eint startRecalculation = PLUS_INFINITY;
-  eint endRecalculation = MINUS_INFINITY;
-
-  if( ProfileIteratorId::noId() != m_recomputeInterval )
-  {
-    startRecalculation = std::min(m_recomputeInterval->getStartTime(),
-                                  static_cast<eint>(t->time()->lastDomain().getLowerBound()));
-    endRecalculation = std::max(m_recomputeInterval->getEndTime(),
-                                static_cast<eint>(t->time()->lastDomain().getUpperBound()));
-  }
-  else
-  {
-    startRecalculation = static_cast<eint>(t->time()->lastDomain().getLowerBound());
-    endRecalculation = static_cast<eint>(t->time()->lastDomain().getUpperBound());
-  }
+  TransactionId2IntIntPair::const_iterator ite = m_previousTimeBounds.find( t );
 
-  if(m_recomputeInterval.isValid())
-    delete static_cast<ProfileIterator*>(m_recomputeInterval);
+  check_error( ite != m_previousTimeBounds.end() );
 
-  m_recomputeInterval = (new ProfileIterator( getId(), startRecalculation, endRecalculation ))->getId();
+  recomputeFrom( (*ite).second.first );
 
   debugMsg("FlowProfile:handleTransactionQuantityChanged","TransactionId (" << t->getId() << ") change " << type << " to " << t->quantity()->toString() );
 }
@@ -696,32 +636,8 @@ void FlowProfile::handleTemporalConstraintAdded(const TransactionId predecessor,
 
       m_orderings.clear();
 
-      eint startRecalculation = PLUS_INFINITY;
-      eint endRecalculation = MINUS_INFINITY;
-
-      if( ProfileIteratorId::noId() != m_recomputeInterval ) {
-        startRecalculation =
-            std::min( m_recomputeInterval->getStartTime(),
-                      std::min(static_cast<eint>(predecessor->time()->lastDomain().getLowerBound()),
-                               static_cast<eint>(successor->time()->lastDomain().getLowerBound())));
-        endRecalculation =
-            std::max(m_recomputeInterval->getEndTime(),
-                     std::max(static_cast<eint>(predecessor->time()->lastDomain().getUpperBound()),
-                              static_cast<eint>(successor->time()->lastDomain().getUpperBound())));
-      }
-      else {
-        startRecalculation =
-            std::min(static_cast<eint>(predecessor->time()->lastDomain().getLowerBound()),
-                     static_cast<eint>(successor->time()->lastDomain().getLowerBound()));
-        endRecalculation =
-            std::max(static_cast<eint>(predecessor->time()->lastDomain().getUpperBound()),
-                     static_cast<eint>(successor->time()->lastDomain().getUpperBound()));
-      }
-
-      if(m_recomputeInterval.isValid())
-        delete static_cast<ProfileIterator*>(m_recomputeInterval);
-
-      m_recomputeInterval = (new ProfileIterator( getId(), startRecalculation, endRecalculation ))->getId();
+      // the constraint may order other transactions, too, which may be open earlier than these
+      recomputeFrom( MINUS_INFINITY );
 
       m_recalculateLowerLevel = true;
       m_recalculateUpperLevel = true;
@@ -742,37 +658,8 @@ void FlowProfile::handleTemporalConstraintRemoved(const TransactionId predecesso
   m_orderings.clear();
   m_orderedAt.clear();
 
-  eint startRecalculation = PLUS_INFINITY;
-  eint endRecalculation = MINUS_INFINITY;
-
-  if( ProfileIteratorId::noId() != m_recomputeInterval ) {
-    eint start = m_recomputeInterval->getStartTime();
-    eint end = m_recomputeInterval->getEndTime();
-
-    startRecalculation = 
-        std::min(start, 
-                 std::min(static_cast<eint>(predecessor->time()->lastDomain().getLowerBound()),
-                          static_cast<eint>(successor->time()->lastDomain().getLowerBound())));
-    endRecalculation = 
-        std::max(end,
-                 std::max(static_cast<eint>(predecessor->time()->lastDomain().getUpperBound()),
-                          static_cast<eint>(successor->time()->lastDomain().getUpperBound())));
-  }
-  else {
-    startRecalculation = 
-        std::min(static_cast<eint>(predecessor->time()->lastDomain().getLowerBound()),
-                 static_cast<eint>(successor->time()->lastDomain().getLowerBound()));
-    endRecalculation = 
-        std::max(static_cast<eint>(predecessor->time()->lastDomain().getUpperBound()),
-                 static_cast<eint>(successor->time()->lastDomain().getUpperBound()));
-  }
-
-
-  if(m_recomputeInterval.isValid())
-    delete static_cast<ProfileIterator*>(m_recomputeInterval);
-
-  m_recomputeInterval = 
-      (new ProfileIterator( getId(), startRecalculation, endRecalculation ))->getId();
+  // the constraint may have ordered other transactions, too, which may be open earlier than these
+  recomputeFrom( MINUS_INFINITY );
 
   m_recalculateLowerLevel = true;
   m_recalculateUpperLevel = true;
diff --git a/src/PLASMA/Resource/component/FlowProfile.hh b/src/PLASMA/Resource/component/FlowProfile.hh
index d5eef4b..6a3ce70 100644
--- a/src/PLASMA/Resource/component/FlowProfile.hh
+++ b/src/PLASMA/Resource/component/FlowProfile.hh
@@ -148,6 +148,7 @@ private:
                                      const DomainListener::ChangeType& type );
   void handleTransactionQuantityChanged( const TransactionId t,
                                          const DomainListener::ChangeType& type );
+  void recomputeFrom(const eint time);
   void initRecompute(InstantId inst);
   void initRecompute();
   Order getOrdering( const TransactionId t1, const TransactionId t2 );
-- 
2.43.0


From cdfc1865b544ea18804b0438856fb9bdb03b7386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:38 +0000
Subject: [PATCH 111/124] fix: a profile notices the removal of constraints
 older than its transactions

---
 src/PLASMA/Resource/base/Profile.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/Resource/base/Profile.cc b/src/PLASMA/Resource/base/Profile.cc
index 6d280a8..d140252 100644
--- a/src/PLASMA/Resource/base/Profile.cc
+++ b/src/PLASMA/Resource/base/Profile.cc
@@ -92,6 +92,19 @@ InstantId Profile::getInstant(const eint time) const {
 
       m_transactions.insert(t);
       m_transactionsByTime.insert(std::make_pair(t->time(), t));
+
+      //constraints with the other transactions may have been there before, and their removal is of interest
+      ConstraintSet constraints;
+      t->time()->constraints(constraints);
+      for(ConstraintSet::const_iterator it = constraints.begin(); it != constraints.end(); ++it) {
+        static const std::string temporal("Temporal");
+        const std::vector<ConstrainedVariableId>& scope = (*it)->getScope();
+        if((*it)->getPropagator()->getName() == temporal && (scope.size() == 2 || scope.size() == 3) &&
+           m_transactionsByTime.find(scope.front()) != m_transactionsByTime.end() &&
+           m_transactionsByTime.find(scope.back()) != m_transactionsByTime.end())
+          m_temporalConstraints.insert(*it);
+      }
+
       m_changeCount++;
       m_needsRecompute = true;
       handleTransactionAdded(t);
@@ -424,7 +437,7 @@ void Profile::handleConstraintMessage(const ConstraintId c,
                "Already removed constraint " << std::endl << c->toLongString());
       return;
     }
-    if(m_temporalConstraints.erase(c) > 0) {
+    if(m_temporalConstraints.erase(c) > 0 && trans1.isValid() && trans2.isValid()) {
       m_changeCount++;
       m_needsRecompute = true;
       if(otherIndex < argIndex)
-- 
2.43.0


From 504f62bfc1274025851a8acbb8d27e554d9df94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:38 +0000
Subject: [PATCH 112/124] fix: temporal distances of variables that changed
 while their constraints were inactive

---
 .../component/TemporalPropagator.cc           | 48 +++++++++++++------
 .../component/TemporalPropagator.hh           |  7 ++-
 2 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 9bda3ba..fa9da9e 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -707,13 +707,30 @@ void TemporalPropagator::updateCnet() {
     duration.intersect(minDuration, maxDuration);
   }
 
+Timepoint* TemporalPropagator::getCurrentTimepoint(const ConstrainedVariableId var) const {
+  Timepoint* const tp = getTimepoint(var);
+
+  if(tp == NULL || var->lastDomain().isEmpty())
+    return tp;
+
+  // A variable which changes while none of its constraints is active (they are deactivated when they are redundant) is
+  // not announced. Nothing but its bounds restricts it then, and the tnet may have others.
+  const Domain& dom = var->lastDomain();
+  if(mapToInternalInfinity(cast_int(dom.getLowerBound())) != mapToInternalInfinity(tp->getLowerBound()) ||
+     mapToInternalInfinity(cast_int(dom.getUpperBound())) != mapToInternalInfinity(tp->getUpperBound()))
+    return NULL;
+
+  return tp;
+}
+
   bool TemporalPropagator::canPrecede(const ConstrainedVariableId first, const ConstrainedVariableId second) {
     check_error(!updateRequired());
-    Timepoint* const fir = getTimepoint(first);
-    Timepoint* const sec = getTimepoint(second);
-    check_error(fir);
-    check_error(sec);
+    Timepoint* const fir = getCurrentTimepoint(first);
+    Timepoint* const sec = getCurrentTimepoint(second);
 
+    // Without a timepoint for both, only the bounds restrict them.
+    if(fir == NULL || sec == NULL)
+      return first->lastDomain().getLowerBound() <= second->lastDomain().getUpperBound();
 
     debugMsg("TemporalPropagator:canPrecede", "determining if  " << first->lastDomain() << " precedes " << second->lastDomain());
 
@@ -774,8 +791,8 @@ void TemporalPropagator::updateCnet() {
   }
 
   bool TemporalPropagator::canBeConcurrent(const ConstrainedVariableId first, const ConstrainedVariableId second) {
-    Timepoint* const _first = getTimepoint(first);
-    Timepoint* const _second = getTimepoint(second);
+    Timepoint* const _first = getCurrentTimepoint(first);
+    Timepoint* const _second = getCurrentTimepoint(second);
 
     debugMsg("TemporalPropagator:canBeConcurrent",
 	     "determining if  " << first->lastDomain() << " can be concurrent with " << second->lastDomain());
@@ -1133,9 +1150,12 @@ bool TemporalPropagator::isValidForPropagation() const {
   const IntervalIntDomain TemporalPropagator::getTemporalDistanceDomain(const ConstrainedVariableId first,
                                                                         const ConstrainedVariableId second,
                                                                         const bool exact) {
-    Timepoint* tstart = getTimepoint(first);
-    Timepoint* tend = getTimepoint(second);
+    Timepoint* tstart = getCurrentTimepoint(first);
+    Timepoint* tend = getCurrentTimepoint(second);
     if(!(tstart && tend)) {
+      if(first == second)
+        return IntervalIntDomain(0, 0);
+
       eint minDistance = std::max(MINUS_INFINITY,
                                   second->lastDomain().getLowerBound() -
                                   first->lastDomain().getUpperBound());
@@ -1158,12 +1178,12 @@ bool TemporalPropagator::isValidForPropagation() const {
                                                       std::vector<IntervalIntDomain>& domains)
   {
     // More efficient to get several at once. Exact calculation.
-    Timepoint* tstart = getTimepoint(first);
+    Timepoint* tstart = getCurrentTimepoint(first);
     std::vector<Timepoint*> tends;
     std::vector<Time> lbs;
     std::vector<Time> ubs;
     for (unsigned i=0; i<seconds.size(); i++) {
-      Timepoint* tend = getTimepoint(seconds[i]);
+      Timepoint* tend = getCurrentTimepoint(seconds[i]);
       if (tstart && tend)
         tends.push_back(tend);
     }
@@ -1174,7 +1194,7 @@ bool TemporalPropagator::isValidForPropagation() const {
     unsigned next = 0;
     for (unsigned i=0; i<seconds.size(); i++) {
       // Variables without any temporal constraint have no timepoint.
-      if (!(tstart && getTimepoint(seconds[i]))) {
+      if (!(tstart && getCurrentTimepoint(seconds[i]))) {
         domains.push_back(getTemporalDistanceDomain(first, seconds[i], true));
         continue;
       }
@@ -1194,10 +1214,10 @@ bool TemporalPropagator::isValidForPropagation() const {
     // lbs, ubs "bounds" are accurate only to their signs (neg/0/pos).
     // Fast function for determining which of the seconds precede or
     // follow first.
-    Timepoint* tstart = getTimepoint(first);
+    Timepoint* tstart = getCurrentTimepoint(first);
     std::vector<Timepoint*> tends;
     for (unsigned i=0; i<seconds.size(); i++) {
-      Timepoint* tend = getTimepoint(seconds[i]);
+      Timepoint* tend = getCurrentTimepoint(seconds[i]);
       if (tstart && tend)
         tends.push_back(tend);
     }
@@ -1211,7 +1231,7 @@ bool TemporalPropagator::isValidForPropagation() const {
     unsigned next = 0;
     for (unsigned i=0; i<seconds.size(); i++) {
       // Variables without any temporal constraint have no timepoint.
-      if (!(tstart && getTimepoint(seconds[i]))) {
+      if (!(tstart && getCurrentTimepoint(seconds[i]))) {
         const IntervalIntDomain distance = getTemporalDistanceDomain(first, seconds[i], true);
         lbs.push_back(cast_long(distance.getLowerBound()));
         ubs.push_back(cast_long(distance.getUpperBound()));
diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.hh b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.hh
index 19dd72e..5b2c545 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.hh
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.hh
@@ -129,7 +129,12 @@ namespace EUROPA {
     bool isEqualToConstraintNetwork();
     bool isConsistentWithConstraintNetwork();
 
-    inline Timepoint* getTimepoint(const ConstrainedVariableId var) {
+    /**
+     * The timepoint of a variable, or NULL if its bounds are not those of the variable.
+     */
+    Timepoint* getCurrentTimepoint(const ConstrainedVariableId var) const;
+
+    inline Timepoint* getTimepoint(const ConstrainedVariableId var) const {
       std::map<ConstrainedVariableId, Timepoint*>::const_iterator it =
           m_varToTimepoint.find(var);
       return (it == m_varToTimepoint.end() ? NULL : it->second);
-- 
2.43.0


From df029b86eca148fd65b15d5cecd0c7f539c57512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:13 +0000
Subject: [PATCH 113/124] fix: set_limit sets the limit of a resource, not its
 capacity

---
 src/PLASMA/Resource/component/NDDL/InterpreterResources.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/Resource/component/NDDL/InterpreterResources.cc b/src/PLASMA/Resource/component/NDDL/InterpreterResources.cc
index d734a47..00fbc98 100644
--- a/src/PLASMA/Resource/component/NDDL/InterpreterResources.cc
+++ b/src/PLASMA/Resource/component/NDDL/InterpreterResources.cc
@@ -299,7 +299,7 @@ DataRef SetLimit::eval(EvalContext& , const std::vector<ConstrainedVariableId>&
 	  check_runtime_error(ubVar->isSingleton(),"SetLimit: upperBound parameter must be singleton");
 	  edouble ub = ubVar->getSingletonValue().asDouble();
 
-	  res->setCapacity(time,lb,ub);
+	  res->setLimit(time,lb,ub);
 
 	  return DataRef::null;
   }
-- 
2.43.0


From 9b801b05e5a38ed7bcde7820d67b7ddfabda7684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:49 +0000
Subject: [PATCH 114/124] fix: tokens that no longer have a transaction at a
 flawed instant don't need to be ordered there

---
 src/PLASMA/Resource/base/Resource.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/PLASMA/Resource/base/Resource.cc b/src/PLASMA/Resource/base/Resource.cc
index 3f8b8ba..1c71890 100644
--- a/src/PLASMA/Resource/base/Resource.cc
+++ b/src/PLASMA/Resource/base/Resource.cc
@@ -436,6 +436,25 @@ void Resource::resetViolations(InstantId ) {
     std::vector<TransactionId> transactions;
     m_profile->getTransactionsToOrder(inst, transactions);
 
+    //tokens that no longer have a transaction at this instant don't have a flaw there anymore
+    std::set<TokenId> tokensAtInst;
+    for(std::vector<TransactionId>::const_iterator it = transactions.begin();
+        it != transactions.end(); ++it) {
+      std::map<TransactionId, TokenId>::const_iterator transIt = m_transactionsToTokens.find(*it);
+      if(transIt != m_transactionsToTokens.end())
+        tokensAtInst.insert(transIt->second);
+    }
+    std::set<TokenId> flawlessTokens;
+    for(ResourceFlaws::iterator tokIt = m_flawedTokens.begin(); tokIt != m_flawedTokens.end(); ++tokIt) {
+      if(tokensAtInst.find(tokIt->first) == tokensAtInst.end() &&
+         tokIt->second.erase(inst) > 0 && tokIt->second.empty())
+        flawlessTokens.insert(tokIt->first);
+    }
+    for(std::set<TokenId>::const_iterator it = flawlessTokens.begin(); it != flawlessTokens.end(); ++it) {
+      notifyOrderingNoLongerRequired(*it);
+      m_flawedTokens.erase(*it);
+    }
+
     //even if we've already recorded a flaw for this instant, there may be new transactions
     for(std::vector<TransactionId>::const_iterator it = transactions.begin();
         it != transactions.end(); ++it) {
-- 
2.43.0


From 538402c0446fd13a2db5c14339f1e772291797ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:36 +0000
Subject: [PATCH 115/124] fix: what remains of an unbounded quantity in a flow
 profile is unbounded

---
 src/PLASMA/Resource/component/BoostFlowProfileGraph.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/Resource/component/BoostFlowProfileGraph.cc b/src/PLASMA/Resource/component/BoostFlowProfileGraph.cc
index 64443ff..3571938 100644
--- a/src/PLASMA/Resource/component/BoostFlowProfileGraph.cc
+++ b/src/PLASMA/Resource/component/BoostFlowProfileGraph.cc
@@ -230,7 +230,12 @@ edouble BoostFlowProfileGraph::getResidualFromSource() {
   Graph::out_edge_iterator outIt, outEnd;
   tie(outIt, outEnd) = out_edges(m_source, m_graph);
   for(; outIt != outEnd; ++outIt) {
-    residual += residualCapacity[*outIt];
+    //what remains of an unbounded quantity is unbounded
+    if(residualCapacity[*outIt] > 0.0 &&
+       get(edge_capacity, m_graph, *outIt) >= cast_basis(edouble(PLUS_INFINITY)))
+      residual = PLUS_INFINITY;
+    else
+      residual += residualCapacity[*outIt];
     debugMsg("BoostFlowProfileGraph:getResidualFromSource",
              getTransaction(source(*outIt, m_graph)) << " -> " << 
              getTransaction(target(*outIt, m_graph)) << 
-- 
2.43.0


From de00e63f79d053951b881c00a57c67cc82d0c47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:55 +0000
Subject: [PATCH 116/124] fix: a new capacity or limit is checked at all
 instants from its time on

---
 src/PLASMA/Resource/base/Resource.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/Resource/base/Resource.cc b/src/PLASMA/Resource/base/Resource.cc
index 1c71890..53d2b63 100644
--- a/src/PLASMA/Resource/base/Resource.cc
+++ b/src/PLASMA/Resource/base/Resource.cc
@@ -137,10 +137,13 @@ void Resource::init(const edouble initCapacityLb, const edouble initCapacityUb,
 
 	void Resource::detectFV(const eint& time)
 	{
+		// the new value holds from time on
 		const std::map<eint, InstantId>& usages = m_profile->getInstants();
-		std::map<eint, InstantId>::iterator nextUsage = m_profile->getLeastInstant(time);
-		if (nextUsage != usages.end())
-			m_detector->detect(nextUsage->second);
+		std::map<eint, InstantId>::const_iterator it = usages.lower_bound(time);
+		for (; it != usages.end(); ++it) {
+			if (m_detector->detect(it->second))
+				break;
+		}
 	}
 
   void Resource::setLimit(const eint& time, const edouble& lb, const edouble &ub)
-- 
2.43.0


From 89b5e4e3de13807ae17e9b99033b4a597f9c258d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:15 +0000
Subject: [PATCH 117/124] fix: an object that can't be added is refused before
 it is made

---
 src/PLASMA/PlanDatabase/base/PlanDatabase.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/base/PlanDatabase.cc b/src/PLASMA/PlanDatabase/base/PlanDatabase.cc
index e847cca..f0bf747 100644
--- a/src/PLASMA/PlanDatabase/base/PlanDatabase.cc
+++ b/src/PLASMA/PlanDatabase/base/PlanDatabase.cc
@@ -1089,6 +1089,11 @@ PSList<PSVariable*>  PlanDatabase::getAllGlobalVariables() const {
       debugMsg("PlanDatabase:createObject", "objectType " << objectType << " objectName " << objectName);
 
       ObjectFactoryId factory = getSchema()->getObjectFactory(objectType, arguments);
+      // Refuse before anything is made: an object that can't be added would be left behind, half made.
+      check_error(!isClosed(objectType),
+                  "Cannot add object " + objectName + " if type " + objectType + " is already closed.");
+      check_error(getObject(objectName).isNoId(),
+                  "Object with the name " + objectName + " already added.");
       ObjectId object = factory->createInstance(getId(), objectType, objectName, arguments);
       check_error(object.isValid());
 
-- 
2.43.0


From 7dac8ebd32856df532b5416bf6dc6d9af086c71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:44 +0000
Subject: [PATCH 118/124] fix: a class that redefines an inherited member is
 refused before it is registered

---
 src/PLASMA/PlanDatabase/base/Schema.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/base/Schema.cc b/src/PLASMA/PlanDatabase/base/Schema.cc
index aef4e86..b939818 100644
--- a/src/PLASMA/PlanDatabase/base/Schema.cc
+++ b/src/PLASMA/PlanDatabase/base/Schema.cc
@@ -739,6 +739,26 @@ const Id<ObjectFactory> createDefaultObjectFactory(
 void Schema::registerObjectType(const ObjectTypeId objType) {
   const std::string& className = objType->getName();
 
+  // A member which an ancestor has already is refused before anything is registered
+  if (objType->getParent().isId() && isObjectType(objType->getParent()->getName())) {
+    const std::string parent = objType->getParent()->getName();
+    for(std::map<std::string,DataTypeId>::const_iterator it = objType->getMembers().begin();
+        it != objType->getMembers().end(); ++it)
+      check_error(!canContain(parent, it->second->getName(), it->first),
+                  className + " already contains " + it->first);
+    for(std::map<std::string,TokenTypeId>::const_iterator it = objType->getTokenTypes().begin();
+        it != objType->getTokenTypes().end(); ++it) {
+      const std::string signature = it->second->getSignature();
+      const std::string inherited = parent + signature.substr(signature.find(getDelimiter()));
+      if (!isPredicate(inherited))
+        continue;
+      for(std::map<std::string,DataTypeId>::const_iterator arg = it->second->getArgs().begin();
+          arg != it->second->getArgs().end(); ++arg)
+        check_error(!canContain(inherited, arg->second->getName(), arg->first),
+                    signature + " already contains " + arg->first);
+    }
+  }
+
   if (objType->getName() == Schema::rootObject())
     addObjectType(className);
   else
-- 
2.43.0


From 6fedb54da16f86e5511d481a791e921cd64fab62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:44 +0000
Subject: [PATCH 119/124] fix: an enumeration's or data type's name can't
 become an object type

---
 src/PLASMA/PlanDatabase/base/Schema.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/base/Schema.cc b/src/PLASMA/PlanDatabase/base/Schema.cc
index b939818..d8383c7 100644
--- a/src/PLASMA/PlanDatabase/base/Schema.cc
+++ b/src/PLASMA/PlanDatabase/base/Schema.cc
@@ -550,6 +550,8 @@ int Schema::getIndexFromName(const std::string& parentType, const std::string& m
 
   void Schema::declareObjectType(const std::string& objectType) {
       if (!this->isObjectType(objectType)) {
+          check_error(!isEnum(objectType) && !isPrimitive(objectType),
+                      objectType + " is already defined and is no object type.");
           debugMsg("Schema:declareObjectType", "[" << m_name << "] " << "Declaring object type " << objectType);
           objectTypes.insert(objectType);
           getCESchema()->registerDataType((new ObjectDT(objectType.c_str()))->getId());
@@ -568,6 +570,8 @@ int Schema::getIndexFromName(const std::string& parentType, const std::string& m
 
     check_error(std::count(objectType.begin(), objectType.end(), getDelimiter()) == 0,
                 "ObjectType must not be delimited:" + objectType);
+    check_error(!isEnum(objectType) && !isPrimitive(objectType),
+                objectType + " is already defined and is no object type.");
 
     if (objectType != rootObject()) {
         checkError(isObjectType(parent), objectType + " has undefined parent class : " + parent);
-- 
2.43.0


From f0ed95e694186a5857e38bb30b9ae6e8aa286a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:44 +0000
Subject: [PATCH 120/124] fix: temporal constraints check their arguments'
 number and types

---
 .../TemporalNetwork/ModuleTemporalNetwork.cc  | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/ModuleTemporalNetwork.cc b/src/PLASMA/TemporalNetwork/ModuleTemporalNetwork.cc
index 3a78663..d18982f 100644
--- a/src/PLASMA/TemporalNetwork/ModuleTemporalNetwork.cc
+++ b/src/PLASMA/TemporalNetwork/ModuleTemporalNetwork.cc
@@ -1,6 +1,7 @@
 #include "ModuleTemporalNetwork.hh"
 #include "ConstraintEngine.hh"
 #include "ConstraintType.hh"
+#include "ConstraintTypeChecking.hh"
 #include "Constraints.hh"
 #include "PlanDatabase.hh"
 #include "Propagators.hh"
@@ -12,6 +13,12 @@
 
 namespace EUROPA {
 
+namespace {
+// What the temporal propagator takes: two time points, or two with the distance between them
+typedef And<NArgs<2>, All<Numeric> > TwoTimes;
+typedef And<NArgs<3>, All<Numeric> > ThreeTimes;
+}
+
   ModuleTemporalNetwork::ModuleTemporalNetwork()
       : Module("TemporalNetwork")
   {
@@ -34,10 +41,14 @@ void ModuleTemporalNetwork::initialize(EngineId engine) {
       boost::polymorphic_cast<ConstraintEngine*>(engine->getComponent("ConstraintEngine"));
   CESchema* ces = ce->getCESchema();
 
-  REGISTER_SYSTEM_CONSTRAINT(ces,EqualConstraint, "concurrent", "Temporal");
-  REGISTER_SYSTEM_CONSTRAINT(ces,LessThanEqualConstraint, "precedes", "Temporal");
-  REGISTER_SYSTEM_CONSTRAINT(ces, LessThanConstraint, "strictlyPrecedes", "Temporal");
-  REGISTER_SYSTEM_CONSTRAINT(ces,AddEqualConstraint, "temporalDistance", "Temporal");
+  ces->registerConstraintType(
+      (new DataTypeCheck<EqualConstraint, TwoTimes>("concurrent", "Temporal", true))->getId());
+  ces->registerConstraintType(
+      (new DataTypeCheck<LessThanEqualConstraint, TwoTimes>("precedes", "Temporal", true))->getId());
+  ces->registerConstraintType(
+      (new DataTypeCheck<LessThanConstraint, TwoTimes>("strictlyPrecedes", "Temporal", true))->getId());
+  ces->registerConstraintType(
+      (new DataTypeCheck<AddEqualConstraint, ThreeTimes>("temporalDistance", "Temporal", true))->getId());
 
   PlanDatabase* pdb =
       boost::polymorphic_cast<PlanDatabase*>(engine->getComponent("PlanDatabase"));
-- 
2.43.0


From 742dd720ed395970731009f295de94143150793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:55 +0000
Subject: [PATCH 121/124] fix: a wild card in a matching rule is not counted as
 a filter to be met

---
 src/PLASMA/Solvers/base/MatchingRule.cc | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/PLASMA/Solvers/base/MatchingRule.cc b/src/PLASMA/Solvers/base/MatchingRule.cc
index 871d030..dedcc56 100644
--- a/src/PLASMA/Solvers/base/MatchingRule.cc
+++ b/src/PLASMA/Solvers/base/MatchingRule.cc
@@ -35,51 +35,47 @@ MatchingRule::MatchingRule(const TiXmlElement& configData)
 
   if(configData.Attribute("class-match") != NULL){
     m_objectType = configData.Attribute("class-match");
-    m_staticFilterCount++;
   }
   else if(configData.Attribute("class") != NULL){
     m_objectType = configData.Attribute("class");
-    m_staticFilterCount++;
   }
 
   if(configData.Attribute("predicate-match") != NULL){
     m_predicate = configData.Attribute("predicate-match");
-    m_staticFilterCount++;
   }
   else if(configData.Attribute("predicate") != NULL){
     m_predicate = configData.Attribute("predicate");
-    m_staticFilterCount++;
   }
 
   if(configData.Attribute("var-match") != NULL){
     m_variable = configData.Attribute("var-match");
-    m_staticFilterCount++;
   }
   else if(configData.Attribute("variable") != NULL){
     m_variable = configData.Attribute("variable");
-    m_staticFilterCount++;
   }
 
   if(configData.Attribute("masterRelation") != NULL){
     m_masterRelation = configData.Attribute("masterRelation");
-    m_staticFilterCount++;
   }
 
   if(configData.Attribute("masterClass") != NULL){
     m_masterObjectType = configData.Attribute("masterClass");
-    m_staticFilterCount++;
   }
 
   if(configData.Attribute("masterPredicate") != NULL){
     m_masterPredicate = configData.Attribute("masterPredicate");
-    m_staticFilterCount++;
   }
 
   if(configData.Attribute("tokenName") != NULL){
     m_tokenName = configData.Attribute("tokenName");
-    m_staticFilterCount++;
   }
 
+  // A wild card excludes nothing, so it is no filter
+  m_staticFilterCount =
+      static_cast<unsigned int>(filteredByObjectType()) + filteredByPredicate() +
+      filteredByVariable() + filteredByMasterRelation() + filteredByMasterObjectType() +
+      filteredByMasterPredicate() + filteredByTokenName();
+
   expr = expr + m_objectType + "." +
          m_predicate + "." +
          m_variable + "." +
@@ -132,11 +128,11 @@ MatchingRule::MatchingRule(const TiXmlElement& configData)
 
     const std::string& MatchingRule::variableFilter() const { return m_variable; }
 
-    bool MatchingRule::filteredByMasterObjectType() const{ return m_objectType != WILD_CARD(); }
+    bool MatchingRule::filteredByMasterObjectType() const{ return m_masterObjectType != WILD_CARD(); }
 
     const std::string& MatchingRule::masterObjectTypeFilter() const { return m_masterObjectType; }
 
-    bool MatchingRule::filteredByMasterPredicate() const{ return m_objectType != WILD_CARD(); }
+    bool MatchingRule::filteredByMasterPredicate() const{ return m_masterPredicate != WILD_CARD(); }
 
     const std::string& MatchingRule::masterPredicateFilter() const { return m_masterPredicate; }
 
-- 
2.43.0


From 9b089b001a895b5b7fce1fa31d66331e9ed3f467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:55 +0000
Subject: [PATCH 122/124] fix: a guarded flaw handler knows whether it applied
 when its listener was made

---
 src/PLASMA/Solvers/base/FlawHandler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/Solvers/base/FlawHandler.cc b/src/PLASMA/Solvers/base/FlawHandler.cc
index 2cc56a8..641ce1d 100644
--- a/src/PLASMA/Solvers/base/FlawHandler.cc
+++ b/src/PLASMA/Solvers/base/FlawHandler.cc
@@ -327,7 +327,8 @@ FlawHandler::VariableListener::VariableListener(const ConstraintEngineId ce,
                                                 const FlawHandlerId flawHandler,
                                                 const std::vector<ConstrainedVariableId>& scope)
   : ConstraintEngineListener(ce),
-    m_target(target), m_flawManager(flawManager), m_flawHandler(flawHandler), m_isApplied(false), m_scope(scope) {}
+    m_target(target), m_flawManager(flawManager), m_flawHandler(flawHandler),
+    m_isApplied(flawHandler->test(scope)), m_scope(scope) {}
   
 void FlawHandler::VariableListener::notifyChanged(const ConstrainedVariableId variable,
 						  const DomainListener::ChangeType&) {
-- 
2.43.0


From 1b5bcc0a029cd64d81c1d6f87bb4e9c762cc5fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:59 +0000
Subject: [PATCH 123/124] fix: a token is created through the public client
 without a null name

---
 src/PLASMA/PlanDatabase/base/DbClient.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/PlanDatabase/base/DbClient.cc b/src/PLASMA/PlanDatabase/base/DbClient.cc
index 2d32523..1a400da 100644
--- a/src/PLASMA/PlanDatabase/base/DbClient.cc
+++ b/src/PLASMA/PlanDatabase/base/DbClient.cc
@@ -486,7 +486,7 @@ void DbClient::deleteToken(const TokenId token, const std::string& name) {
 
   PSToken* PSPlanDatabaseClientImpl::createToken(const std::string& predicateName, bool rejectable, bool isFact)
   {
-      TokenId tok = m_client->createToken(predicateName.c_str(),NULL, rejectable,isFact);
+      TokenId tok = m_client->createToken(predicateName,"", rejectable,isFact);
       return dynamic_cast<PSToken*>(static_cast<Token*>(tok));
   }
 
-- 
2.43.0


From 9657e345ac8ec2e075ebdab3e5bccc6c3f4d23b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:51 +0000
Subject: [PATCH 124/124] fix: a type can be closed while a merged token has a
 variable of it with one object

---
 src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc b/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
index 519c33f..8e3a0ab 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
@@ -411,7 +411,8 @@ const std::string& ConstrainedVariable::getName() const {
 
     if(getCurrentDomain().isEmpty())
       return;
-    if(internal_baseDomain().isSingleton() && !isSpecified())
+    // A variable of a merged token is inactive: it keeps its value but it is not a decision.
+    if(internal_baseDomain().isSingleton() && !isSpecified() && isActive())
       internalSpecify(internal_baseDomain().getSingletonValue());
   }
 
-- 
2.43.0

