From bc48ef0f72eabdbe686efb30bcd961b49e1a32e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:11 +0000
Subject: [PATCH 01/77] fix: Config::flatten() must not modify values shared
 with other copies

---
 src/config.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config.cpp b/src/config.cpp
index df2468f..a4604ff 100644
--- a/src/config.cpp
+++ b/src/config.cpp
@@ -116,6 +116,7 @@ void Config::push_scope()
 void Config::flatten()
 {
     if(implicit_values) {
+        _cow();
         values->insert(implicit_values->begin(),
                        implicit_values->end());
         implicit_values.reset();
-- 
2.43.0


From ba2a71c2ad5a6527a305132c68647b6609ab6c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:45 +0000
Subject: [PATCH 02/77] fix: report the line number of errors found while
 evaluating lattice operations

---
 src/glps_ops.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/glps_ops.cpp b/src/glps_ops.cpp
index 105f387..a3c5d58 100644
--- a/src/glps_ops.cpp
+++ b/src/glps_ops.cpp
@@ -84,7 +84,7 @@ int binary_div(parse_context* ctxt, expr_value_t *R, const expr_t * const *A)
 {
     double result = boost::get<double>(A[0]->value)/boost::get<double>(A[1]->value);
     if(!isfinite(result)) {
-        ctxt->last_error = "division results in non-finite value";
+        glps_error(ctxt->scanner, ctxt, "division results in non-finite value");
         return 1;
     }
     *R = result;
@@ -115,7 +115,7 @@ int binary_bl_mult(parse_context* ctxt, expr_value_t *R, const expr_t * const *A
     double factor = boost::get<double>(A[MULT]->value);
 
     if(factor<0.0 || factor>std::numeric_limits<unsigned>::max()) {
-        ctxt->last_error = "beamline scale by negative value or out of range value";
+        glps_error(ctxt->scanner, ctxt, "beamline scale by negative value or out of range value");
         return 1;
     }
     unsigned factori = (unsigned)factor;
@@ -160,7 +160,7 @@ int unary_file(parse_context* ctxt, expr_value_t *R, const expr_t * const *A)
     if(!exists(ret)) {
         std::ostringstream strm;
         strm<<"\""<<ret<<"\" does not exist";
-        ctxt->last_error = strm.str();
+        glps_error(ctxt->scanner, ctxt, "%s", strm.str().c_str());
         return 1;
     }
 
@@ -197,7 +197,7 @@ int unary_h5file(parse_context* ctxt, expr_value_t *R, const expr_t * const *A)
 
     std::ostringstream strm;
     strm<<"\""<<inp<<"\" does not exist";
-  ctxt->last_error = strm.str();
+  glps_error(ctxt->scanner, ctxt, "%s", strm.str().c_str());
   return 1;
 }
 #endif
-- 
2.43.0


From f49cae6fed7a93e1e7bc0cb5bc418251be759850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:51 +0000
Subject: [PATCH 03/77] fix: name the operation, not its address, in the
 lattice parser's type error

---
 src/glps_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glps_parser.cpp b/src/glps_parser.cpp
index 549352d..2410163 100644
--- a/src/glps_parser.cpp
+++ b/src/glps_parser.cpp
@@ -346,7 +346,7 @@ expr_t *glps_add_op(parse_context *ctxt, string_t *name, unsigned N, expr_t **ar
 
         if(!op) {
             std::ostringstream strm;
-            strm << "Operation '" << name <<"'(";
+            strm << "Operation '" << name->str <<"'(";
             for(unsigned i=0; i<N; i++) {
                 if(i>0)
                     strm<<", ";
-- 
2.43.0


From 48a5cac5d23c3bfc7d7ed05afcbf81b370c2f074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:33 +0000
Subject: [PATCH 04/77] fix: refuse NaN as a beamline repetition count

---
 src/glps_ops.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glps_ops.cpp b/src/glps_ops.cpp
index a3c5d58..2a8e101 100644
--- a/src/glps_ops.cpp
+++ b/src/glps_ops.cpp
@@ -114,7 +114,7 @@ int binary_bl_mult(parse_context* ctxt, expr_value_t *R, const expr_t * const *A
 
     double factor = boost::get<double>(A[MULT]->value);
 
-    if(factor<0.0 || factor>std::numeric_limits<unsigned>::max()) {
+    if(!(factor>=0.0 && factor<=std::numeric_limits<unsigned>::max())) { // also catch NaN
         glps_error(ctxt->scanner, ctxt, "beamline scale by negative value or out of range value");
         return 1;
     }
-- 
2.43.0


From cf2b44b8a1e0a7156f4748f97fa1ceee2a1dae34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:51 +0000
Subject: [PATCH 05/77] fix: a read failure while parsing a lattice must not
 end the process

---
 src/glps.l | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/glps.l b/src/glps.l
index 0eeb8e7..1fad3b8 100644
--- a/src/glps.l
+++ b/src/glps.l
@@ -1,11 +1,24 @@
 %{
 #include <stdlib.h>
 #include <math.h>
+#include <errno.h>
+#include <string.h>
 
 #include "glps_parser.h"
 #include "glps.par.h"
 
 #define YYSTYPE         GLPS_STYPE
+
+/* The default YY_INPUT ends the process when reading fails (eg. a directory).
+ * Report an error like any other, and treat as end of input.
+ */
+#define YY_INPUT(buf, result, max_size) \
+    do { \
+        errno = 0; \
+        (result) = fread((buf), 1, (max_size), yyin); \
+        if((result)==0 && ferror(yyin)) \
+            glps_error(yyscanner, yyextra, "Failed to read input: %s", strerror(errno)); \
+    } while(0)
 %}
 
 %option 8bit reentrant batch bison-bridge
-- 
2.43.0


From 9d8e65fec5e616759856b932cc453ebc04c8b2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:23 +0000
Subject: [PATCH 06/77] fix: discarding a parsed element property must release
 its key with delete

---
 src/glps.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glps.y b/src/glps.y
index cdd87c5..cfc58e0 100644
--- a/src/glps.y
+++ b/src/glps.y
@@ -56,7 +56,7 @@ void yyerror (yacc_arg arg, const char* msg)
 %printer { fprintf(yyoutput, "%p", $$); } line_list;
 
 %union { kv_t kv; }
-%destructor { free($$.key); $$.key = NULL;glps_expr_cleanup($$.value); } <kv>
+%destructor { glps_string_cleanup($$.key); $$.key = NULL; glps_expr_cleanup($$.value); } <kv>
 %type <kv> property
 
 %token COMMENT
-- 
2.43.0


From 7cef4fef1456b71cc59b7080bf0dfa6090c090fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:45 +0000
Subject: [PATCH 07/77] fix: do not limit the size of a lattice by the parser's
 default stack depth

---
 src/glps.y | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/glps.y b/src/glps.y
index cfc58e0..3784423 100644
--- a/src/glps.y
+++ b/src/glps.y
@@ -4,6 +4,11 @@
 #include <stdlib.h>
 #include "glps_parser.h"
 
+/* Lists are right recursive, so the parser stack must hold an entire list.
+ * The default limit (10000) is too small for long vectors and beamlines.
+ */
+#define YYMAXDEPTH 10000000
+
 #undef yyerror
 static inline
 void yyerror (yacc_arg arg, const char* msg)
-- 
2.43.0


From 3162c0da47dd8d4ca6ad65c8186f43ba9bb01d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:02 +0000
Subject: [PATCH 08/77] fix: a printed variable must not hide the element of
 the same name

---
 src/config.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/config.cpp b/src/config.cpp
index a4604ff..5d5893e 100644
--- a/src/config.cpp
+++ b/src/config.cpp
@@ -499,10 +499,26 @@ struct glps_show : public boost::static_visitor<void>
 
 void GLPSPrint(std::ostream& strm, const Config& conf)
 {
+    // A variable hides an element of the same name in definitions which follow it.
+    // So variables which share the name of an element are printed last.
+    std::set<std::string> hiding;
+    Config::vector_t elems;
+    if(conf.tryGet("elements", elems)) {
+        for(Config::vector_t::const_iterator it=elems.begin(), end=elems.end();
+            it!=end; ++it)
+        {
+            std::string name;
+            if(it->tryGet("name", name))
+                hiding.insert(name);
+        }
+    }
+
     // print variables
     for(Config::const_iterator it=conf.begin(), end=conf.end();
         it!=end; ++it)
     {
+        if(hiding.find(it->first)!=hiding.end())
+            continue;
         boost::apply_visitor(glps_show(strm, it->first), it->second);
     }
 
@@ -571,4 +587,11 @@ void GLPSPrint(std::ostream& strm, const Config& conf)
     }
 
     strm<<");\nUSE: "<<lname<<";\n";
+
+    for(Config::const_iterator it=conf.begin(), end=conf.end();
+        it!=end; ++it)
+    {
+        if(hiding.find(it->first)!=hiding.end())
+            boost::apply_visitor(glps_show(strm, it->first), it->second);
+    }
 }
-- 
2.43.0


From 2153c749aa784a1e10161d841867a3acbf6dcb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:13 +0000
Subject: [PATCH 09/77] fix: GLPSPrinter must print numbers with enough digits
 to read them back

---
 python/flame/modconfig.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index d1eed62..f4657d9 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -174,6 +174,7 @@ PyObject* PyGLPSPrint(PyObject *, PyObject *args)
         Config conf;
         List2Config(conf, inp);
         std::ostringstream strm;
+        strm.precision(17); // enough to read back the same numbers
         GLPSPrint(strm, conf);
         return PyString_FromString(strm.str().c_str());
     }CATCH()
-- 
2.43.0


From 3db676d0ad480642cb23b27b877f132615140e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:18 +0000
Subject: [PATCH 10/77] fix: phase advance of a cached element must follow the
 direction of propagation

The phases after the element were part of the cached result although they
depend on the direction: passing an element backward and forward with the
same input phases returned the phases of the other direction.
---
 src/moment.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/moment.cpp b/src/moment.cpp
index 6a073e3..890756e 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -673,16 +673,6 @@ void MomentElementBase::advance(StateBase& s)
 
         ST.recalc();
 
-        if(!ST.retreat){
-            ST.ref.phis += ST.ref.SampleIonK*length*MtoMM;
-            for(size_t k=0; k<last_real_in.size(); k++)
-                ST.real[k].phis += ST.real[k].SampleIonK*length*MtoMM;
-        } else {
-            ST.ref.phis -= ST.ref.SampleIonK*length*MtoMM;
-            for(size_t k=0; k<last_real_in.size(); k++)
-                ST.real[k].phis -= ST.real[k].SampleIonK*length*MtoMM;
-        }
-
         last_ref_out = ST.ref;
         last_real_out = ST.real;
     } else {
@@ -696,8 +686,11 @@ void MomentElementBase::advance(StateBase& s)
     if(!ST.retreat){
         // Forward propagation
         ST.pos += length;
+        ST.ref.phis += ST.ref.SampleIonK*length*MtoMM;
 
         for(size_t k=0; k<last_real_in.size(); k++) {
+            ST.real[k].phis += ST.real[k].SampleIonK*length*MtoMM;
+
             ST.moment0[k] = prod(transfer[k], ST.moment0[k]);
 
             scratch = prod(transfer[k], ST.moment1[k]);
@@ -708,9 +701,12 @@ void MomentElementBase::advance(StateBase& s)
     } else {
         // Backward propagation
         ST.pos -= length;
+        ST.ref.phis -= ST.ref.SampleIonK*length*MtoMM;
 
         value_t invmat = boost::numeric::ublas::identity_matrix<double>(state_t::maxsize);
         for(size_t k=0; k<last_real_in.size(); k++) {
+            ST.real[k].phis -= ST.real[k].SampleIonK*length*MtoMM;
+
             inverse(invmat, transfer[k]);
 
             ST.moment0[k] = prod(invmat, ST.moment0[k]);
-- 
2.43.0


From 448077e96d582d6222dfbcf93cac26f9454fb929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:29 +0000
Subject: [PATCH 11/77] fix: a failed matrix computation must not be taken for
 a cached one

advance() noted the input state before computing the transfer matrices. When
that failed, passing the same state again found the state unchanged and
applied whatever was left of the matrices instead of failing again.
---
 src/flame/moment.h    |  4 ++++
 src/flame/rf_cavity.h | 31 ++++++++++++++++++-------------
 src/moment.cpp        | 20 ++++++++++++++++++--
 3 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/src/flame/moment.h b/src/flame/moment.h
index b4c1e91..116f015 100644
--- a/src/flame/moment.h
+++ b/src/flame/moment.h
@@ -170,6 +170,10 @@ struct MomentElementBase : public ElementVoid
     //! in the provided new input state.
     void resize_cache(const state_t& ST);
 
+    //! Forget any previously calculated 'transfer'.
+    //! After this neither check_cache() nor check_backward() will match
+    void clear_cache();
+
     //! recalculate 'transfer' taking into consideration the provided input state
     virtual void recompute_matrix(state_t& ST);
 
diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 4728129..a4991fb 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -170,25 +170,30 @@ struct ElementRFCavity : public MomentElementBase
             resize_cache(ST);
             // need to re-calculate energy dependent terms
 
-            std::string newtype = conf().get<std::string>("cavtype");
-            if (CavType != newtype){
-                lattice.clear();
-                SynAccTab.clear();
-                LoadCavityFile(conf());
-            } else if (CavType == "Generic") {
-                std::string newfile = conf().get<std::string>("Eng_Data_Dir", defpath);
-                newfile += "/" + conf().get<std::string>("datafile");
-                if (DataFile != newfile) {
+            try {
+                std::string newtype = conf().get<std::string>("cavtype");
+                if (CavType != newtype){
                     lattice.clear();
                     SynAccTab.clear();
                     LoadCavityFile(conf());
+                } else if (CavType == "Generic") {
+                    std::string newfile = conf().get<std::string>("Eng_Data_Dir", defpath);
+                    newfile += "/" + conf().get<std::string>("datafile");
+                    if (DataFile != newfile) {
+                        lattice.clear();
+                        SynAccTab.clear();
+                        LoadCavityFile(conf());
+                    }
                 }
-            }
 
-            recompute_matrix(ST); // updates transfer and last_Kenergy_out
+                recompute_matrix(ST); // updates transfer and last_Kenergy_out
 
-            for(size_t i=0; i<last_real_in.size(); i++)
-                get_misalign(ST, ST.real[i], misalign[i], misalign_inv[i]);
+                for(size_t i=0; i<last_real_in.size(); i++)
+                    get_misalign(ST, ST.real[i], misalign[i], misalign_inv[i]);
+            } catch(...) {
+                clear_cache(); // 'transfer' doesn't match last_*_in
+                throw;
+            }
 
             ST.recalc();
 
diff --git a/src/moment.cpp b/src/moment.cpp
index 890756e..c860964 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -669,7 +669,12 @@ void MomentElementBase::advance(StateBase& s)
         last_real_in = ST.real;
         resize_cache(ST);
 
-        recompute_matrix(ST); // updates transfer and last_Kenergy_out
+        try {
+            recompute_matrix(ST); // updates transfer and last_Kenergy_out
+        } catch(...) {
+            clear_cache(); // 'transfer' doesn't match last_*_in
+            throw;
+        }
 
         ST.recalc();
 
@@ -753,6 +758,12 @@ void MomentElementBase::resize_cache(const state_t& ST)
     misalign_inv.resize(ST.real.size(), boost::numeric::ublas::identity_matrix<double>(state_t::maxsize));
 }
 
+void MomentElementBase::clear_cache()
+{
+    last_real_in.clear();
+    last_real_out.clear();
+}
+
 void MomentElementBase::recompute_matrix(state_t& ST)
 {
     // Default, initialize as no-op
@@ -947,7 +958,12 @@ struct ElementSBend : public MomentElementBase
             last_real_in = ST.real;
             resize_cache(ST);
 
-            recompute_matrix(ST); // updates transfer and last_Kenergy_out
+            try {
+                recompute_matrix(ST); // updates transfer and last_Kenergy_out
+            } catch(...) {
+                clear_cache(); // 'transfer' doesn't match last_*_in
+                throw;
+            }
 
             ST.recalc();
             last_ref_out = ST.ref;
-- 
2.43.0


From 9487014ef4bac051e2f350c012afbfa2f5ae0289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:19 +0000
Subject: [PATCH 12/77] fix: reconfiguring a linear source must change its
 initial state

---
 src/linear.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/linear.cpp b/src/linear.cpp
index 958595e..ac11c28 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -193,6 +193,13 @@ struct ElementSource : public Base
     virtual ~ElementSource() {}
 
     virtual const char* type_name() const {return "source";}
+
+    virtual void assign(const ElementVoid *other)
+    {
+        base_t::assign(other);
+        const ElementSource *O = static_cast<const ElementSource*>(other);
+        istate.assign(O->istate);
+    }
 };
 
 template<typename Base>
-- 
2.43.0


From b71d970ea98702c2a6e17bf6fce9be14996bacb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:19 +0000
Subject: [PATCH 13/77] fix: a Machine whose construction fails must not leak
 its elements

---
 src/base.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/base.cpp b/src/base.cpp
index ef0a1f6..d924380 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -79,6 +79,17 @@ void ElementVoid::assign(const ElementVoid *other)
     *const_cast<size_t*>(&index) = other->index;
 }
 
+namespace {
+// owns elements until Machine construction is complete
+struct ElementList {
+    std::vector<ElementVoid*> elements;
+    ~ElementList() {
+        for(size_t i=0; i<elements.size(); i++)
+            delete elements[i];
+    }
+};
+}
+
 Machine::Machine(const Config& c)
     :p_elements()
     ,p_trace(NULL)
@@ -103,7 +114,8 @@ Machine::Machine(const Config& c)
     typedef Config::vector_t elements_t;
     elements_t Es(c.get<elements_t>("elements"));
 
-    p_elements_t result;
+    ElementList holder;
+    p_elements_t& result = holder.elements;
     p_lookup_t result_l, result_t;
     result.reserve(Es.size());
 
@@ -136,6 +148,8 @@ Machine::Machine(const Config& c)
             throw std::runtime_error(strm.str());
         }
 
+        result.push_back(E); // can't fail, see reserve() above
+
         if(E->type_name()!=etype) {
             std::ostringstream strm;
             strm<<"Element type inconsistent "<<etype<<" "<<E->type_name();
@@ -144,7 +158,6 @@ Machine::Machine(const Config& c)
 
         *const_cast<size_t*>(&E->index) = idx++; // ugly
 
-        result.push_back(E);
         result_l.insert(std::make_pair(LookupKey(E->name, E->index), E));
         result_t.insert(std::make_pair(LookupKey(etype, E->index), E));
     }
-- 
2.43.0


From 799f09da1c6223cbeff4351f239bdf6094e71ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:16 +0000
Subject: [PATCH 14/77] fix: reconfiguring an RF cavity must take over all of
 its data

The cavity type, data file and synchronous phase model were left behind, and
only repaired by reading the data files again during the next propagation.
---
 src/flame/rf_cavity.h | 12 ++++++++++++
 src/rf_cavity.cpp     |  5 +++++
 2 files changed, 17 insertions(+)

diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index a4991fb..52b6d46 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -143,6 +143,18 @@ struct ElementRFCavity : public MomentElementBase
         lattice       = O->lattice;
         mlptable      = O->mlptable;
         CavData       = O->CavData;
+        CavType       = O->CavType;
+        DataPath      = O->DataPath;
+        DataFile      = O->DataFile;
+        SynAccTab     = O->SynAccTab;
+        have_RefNrm   = O->have_RefNrm;
+        have_SynComplex = O->have_SynComplex;
+        have_EkLim    = O->have_EkLim;
+        have_NrLim    = O->have_NrLim;
+        RefNrm        = O->RefNrm;
+        SynComplex    = O->SynComplex;
+        EkLim         = O->EkLim;
+        NrLim         = O->NrLim;
         CavTLMLineTab = O->CavTLMLineTab;
         fRF           = O->fRF;
         IonFys        = O->IonFys;
diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 327fd8d..0bba5e6 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -691,6 +691,11 @@ void EvalGapModel(const double dis, const double IonW0, const Particle &real, co
 
 ElementRFCavity::ElementRFCavity(const Config& c)
     :base_t(c)
+    ,have_RefNrm(false)
+    ,have_SynComplex(false)
+    ,have_EkLim(false)
+    ,have_NrLim(false)
+    ,RefNrm(std::numeric_limits<double>::quiet_NaN())
 {
     ElementRFCavity::LoadCavityFile(c);
 }
-- 
2.43.0


From 83a51fcb0610db237f475ad51ddc95b96fbc79b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:31 +0000
Subject: [PATCH 15/77] fix: reconfigure() with another name must update the
 lookup by name

---
 src/base.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/base.cpp b/src/base.cpp
index d924380..189fea2 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -223,7 +223,21 @@ void Machine::reconfigure(size_t idx, const Config& c)
 
     element_builder_t *builder = eit->second;
 
-    builder->rebuild(p_elements[idx], c, idx);
+    ElementVoid * const E = p_elements[idx];
+    const LookupKey oldkey(E->name, idx), newkey(c.get<std::string>("name"), idx);
+    const bool rename = oldkey.name!=newkey.name;
+
+    if(rename)
+        p_lookup.insert(std::make_pair(newkey, E));
+    try {
+        builder->rebuild(E, c, idx);
+    } catch(...) {
+        if(rename)
+            p_lookup.erase(newkey);
+        throw;
+    }
+    if(rename)
+        p_lookup.erase(oldkey);
 }
 
 Machine::p_state_infos_t Machine::p_state_infos;
-- 
2.43.0


From a70999ce2ae6291f2c91743636bf0db749d5026c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:58 +0000
Subject: [PATCH 16/77] fix: propagate() must visit the elements for every
 negative count

---
 src/base.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/base.cpp b/src/base.cpp
index 189fea2..341cfdd 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -186,7 +186,10 @@ Machine::propagate(StateBase* S, size_t start, int max) const
     S->next_elem = start;
     S->retreat = std::signbit(max);
 
-    for(int i=0; S->next_elem<nelem && i<abs(max); i++)
+    // unsigned arithmetic, as abs(INT_MIN) isn't defined
+    const unsigned count = max<0 ? 0u-(unsigned)max : (unsigned)max;
+
+    for(unsigned i=0; S->next_elem<nelem && i<count; i++)
     {
         size_t n = S->next_elem;
         ElementVoid* E = p_elements[n];
-- 
2.43.0


From 92b5bf3c1397270d9c0dee8f232e55c3b665b780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:31 +0000
Subject: [PATCH 17/77] fix: backward propagation through linear elements must
 apply the inverse map

---
 src/flame/linear.h | 21 +++++++++++++++++----
 src/linear.cpp     |  5 +++--
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/flame/linear.h b/src/flame/linear.h
index cd33adf..a4d9414 100644
--- a/src/flame/linear.h
+++ b/src/flame/linear.h
@@ -2,17 +2,19 @@
 #define FLAME_LINEAR_H
 
 #include <ostream>
+#include <stdexcept>
 #include <math.h>
 
 #include <boost/numeric/ublas/vector.hpp>
 #include <boost/numeric/ublas/matrix.hpp>
+#include <boost/numeric/ublas/lu.hpp>
 #include <boost/numeric/ublas/io.hpp>
 
 #include "base.h"
 
 /** @brief An Element based on a simple Transfer matrix
  *
- * @f$ state = transfer * state @f$
+ * @f$ state = transfer * state @f$, or its inverse in backward propagation.
  * @tparam one of VectorState or MatrixState
  */
 template<typename State>
@@ -52,9 +54,20 @@ struct LinearElementBase : public ElementVoid
 private:
     void advanceT(State& s)
     {
-        using boost::numeric::ublas::prod;
-        s.pos += length;
-        s.state = prod(transfer, s.state);
+        using namespace boost::numeric::ublas;
+        if(!s.retreat) {
+            // Forward propagation
+            s.state = prod(transfer, s.state);
+            s.pos += length;
+        } else {
+            // Backward propagation
+            value_t scratch(transfer);
+            permutation_matrix<size_t> pm(scratch.size1());
+            if(lu_factorize(scratch, pm)!=0)
+                throw std::runtime_error("Failed to invert matrix");
+            lu_substitute(scratch, pm, s.state);
+            s.pos -= length;
+        }
     }
 };
 
diff --git a/src/linear.cpp b/src/linear.cpp
index ac11c28..91057ef 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -177,8 +177,9 @@ struct ElementSource : public Base
     virtual void advance(StateBase& s)
     {
         state_t& ST = static_cast<state_t&>(s);
-        // Replace state with our initial values
-        ST.assign(istate);
+        if (!ST.retreat)
+            // Replace state with our initial values
+            ST.assign(istate);
     }
 
     virtual void show(std::ostream& strm, int level) const
-- 
2.43.0


From 8d6493c5125e0483c182301c98fcb3497549df92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:31 +0000
Subject: [PATCH 18/77] fix: refuse backward propagation through an RF cavity
 with emittance growth

---
 src/flame/rf_cavity.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 52b6d46..abdb145 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -212,6 +212,9 @@ struct ElementRFCavity : public MomentElementBase
             last_ref_out = ST.ref;
             last_real_out = ST.real;
         } else if(ST.retreat){
+            if (EmitGrowth)
+                throw std::runtime_error(SB()<<
+                    "Backward propagation error at " << ST.next_elem << ": emittance growth can't be reverted.");
             if (!check_backward(ST))
                 throw std::runtime_error(SB()<<
                     "Backward propagation error at " << ST.next_elem << ": beam state does not match to the previous propagation.");
-- 
2.43.0


From 145a105350335f97e9bc018bd4c9430767a3222a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:41 +0000
Subject: [PATCH 19/77] fix: printing a Vector state must show it

---
 src/flame/state/vector.h | 2 +-
 src/linear.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flame/state/vector.h b/src/flame/state/vector.h
index e5e3383..f79b9f8 100644
--- a/src/flame/state/vector.h
+++ b/src/flame/state/vector.h
@@ -26,7 +26,7 @@ struct VectorState : public StateBase
                     boost::numeric::ublas::bounded_array<double, maxsize>
     > value_t;
 
-    virtual void show(std::ostream& strm) const;
+    virtual void show(std::ostream& strm, int level) const;
 
     value_t state;
 
diff --git a/src/linear.cpp b/src/linear.cpp
index 91057ef..75a3db4 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -101,7 +101,7 @@ void VectorState::assign(const StateBase& other)
     StateBase::assign(other);
 }
 
-void VectorState::show(std::ostream& strm) const
+void VectorState::show(std::ostream& strm, int level) const
 {
     strm<<"State: "<<state<<"\n";
 }
-- 
2.43.0


From 0e12c21d85ccec83149535a8f1bce332f9632f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:59 +0000
Subject: [PATCH 20/77] fix: backward propagation must not replace the cached
 misalignment of an RF cavity

---
 src/flame/rf_cavity.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index abdb145..1240724 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -172,6 +172,8 @@ struct ElementRFCavity : public MomentElementBase
         using namespace boost::numeric::ublas;
 
         double x0[2], x2[2], s0[2];
+        // for backward propagation, 'misalign' belongs to the cached 'transfer'
+        std::vector<value_t> back_misalign, back_misalign_inv;
 
         // IonEk is Es + E_state; the latter is set by user.
         ST.recalc();
@@ -219,12 +221,15 @@ struct ElementRFCavity : public MomentElementBase
                 throw std::runtime_error(SB()<<
                     "Backward propagation error at " << ST.next_elem << ": beam state does not match to the previous propagation.");
 
+            back_misalign = misalign;
+            back_misalign_inv = misalign_inv;
+
             ST.ref.phis -= (last_ref_out.phis - last_ref_in.phis);
             ST.ref.IonEk = last_ref_in.IonEk;
             for(size_t k=0; k<last_real_in.size(); k++) {
                 ST.real[k].phis -= (last_real_out[k].phis - last_real_in[k].phis);
                 ST.real[k].IonEk = last_real_in[k].IonEk;
-                get_misalign(ST, ST.real[k], misalign[k], misalign_inv[k]);
+                get_misalign(ST, ST.real[k], back_misalign[k], back_misalign_inv[k]);
             }
 
             ST.recalc();
@@ -291,8 +296,8 @@ struct ElementRFCavity : public MomentElementBase
             ST.pos -= length;
             value_t invmat = boost::numeric::ublas::identity_matrix<double>(state_t::maxsize);
             for(size_t i=0; i<last_real_in.size(); i++) {
-                scratch = prod(transfer[i], misalign[i]);
-                scratch = prod(misalign_inv[i], scratch);
+                scratch = prod(transfer[i], back_misalign[i]);
+                scratch = prod(back_misalign_inv[i], scratch);
 
                 inverse(invmat, scratch);
 
-- 
2.43.0


From 551fe830494bdad8890b4af4debd334d6277282a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:31 +0000
Subject: [PATCH 21/77] fix: dispersion of a bend without or with negative
 focusing

With Kx<0 the derivative of the dispersion used sin() instead of sinh(), and
with Kx==0 (also for a bend angle of zero) the longitudinal entries were NaN.
---
 src/moment_sup.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/moment_sup.cpp b/src/moment_sup.cpp
index 6f5387e..e5bbe2d 100644
--- a/src/moment_sup.cpp
+++ b/src/moment_sup.cpp
@@ -226,7 +226,8 @@ void GetSBendMatrix(const double L, const double phi, const double phi1, const d
             Kx  = K + 1e0/sqr(rho),
             Ky  = -K,
             dx  = 0e0,
-            sx  = 0e0;
+            sx  = 0e0,
+            dz  = 0e0; // path length due to dispersion
 
     // Horizontal plane.
     GetQuadMatrix(L, Kx, (unsigned)state_t::PS_X, M);
@@ -234,15 +235,19 @@ void GetSBendMatrix(const double L, const double phi, const double phi1, const d
     GetQuadMatrix(L, Ky, (unsigned)state_t::PS_Y, M);
 
     // Include dispersion.
-    if (Kx == 0e0) {
+    if (fabs(Kx)*sqr(L) < 1e-8) {
+        // limit Kx -> 0
         dx = sqr(L)/(2e0*rho);
         sx = L/rho;
+        dz = cube(L)/(6e0*sqr(rho));
     } else if (Kx > 0e0) {
         dx = (1e0-cos(sqrt(Kx)*L))/(rho*Kx);
         sx = sin(sqrt(Kx)*L)/(rho*sqrt(Kx));
+        dz = (L/rho-sx)/(Kx*rho);
     } else {
         dx = (1e0-cosh(sqrt(-Kx)*L))/(rho*Kx);
-        sx = sin(sqrt(-Kx)*L)/(rho*sqrt(-Kx));
+        sx = sinh(sqrt(-Kx)*L)/(rho*sqrt(-Kx));
+        dz = (L/rho-sx)/(Kx*rho);
     }
 
     M(state_t::PS_X,  state_t::PS_PS) = dx/(sqr(dip_beta)*dip_gamma*IonEs/MeVtoeV);
@@ -252,11 +257,11 @@ void GetSBendMatrix(const double L, const double phi, const double phi1, const d
     M(state_t::PS_S,  state_t::PS_PX) = dx*dip_IonK;
     // Low beta approximation.
     M(state_t::PS_S,  state_t::PS_PS) =
-            ((L/rho-sx)/(Kx*rho)-L/sqr(ref_gamma))*dip_IonK
+            (dz-L/sqr(ref_gamma))*dip_IonK
             /(sqr(dip_beta)*dip_gamma*IonEs/MeVtoeV);
 
     // Add dipole terms.
-    M(state_t::PS_S,  6) = ((L/rho-sx)/(Kx*rho)*d-L/sqr(ref_gamma)*(d+qmrel))*dip_IonK;
+    M(state_t::PS_S,  6) = (dz*d-L/sqr(ref_gamma)*(d+qmrel))*dip_IonK;
     M(state_t::PS_X,  6) = dx*d;
     M(state_t::PS_PX, 6) = sx*d;
 
-- 
2.43.0


From 5a90cb3bc4e757cb282945ee33762c7f5eb34383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:12 +0000
Subject: [PATCH 22/77] fix: an electrostatic bend without or with negative
 focusing must not give NaN

---
 src/moment_sup.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/moment_sup.cpp b/src/moment_sup.cpp
index e5bbe2d..db282fa 100644
--- a/src/moment_sup.cpp
+++ b/src/moment_sup.cpp
@@ -336,7 +336,8 @@ void GetEBendMatrix(const double L, const double phi, const double fringe_x, con
     double  rho = L/phi,
             scl = (real_gamma - 1e0)*IonEs/MeVtoeV,
             dx  = 0e0,
-            sx  = 0e0;
+            sx  = 0e0,
+            lx  = 0e0; // (L-sx)/Kx
 
     // Horizontal plane.
     GetQuadMatrix(L, Kx, (unsigned)state_t::PS_X, M);
@@ -344,15 +345,19 @@ void GetEBendMatrix(const double L, const double phi, const double fringe_x, con
     GetQuadMatrix(L, Ky, (unsigned)state_t::PS_Y, M);
 
     // Include dispersion.
-    if (Kx == 0e0) {
-        dx = 0e0;
-        sx = 0e0;
+    if (fabs(Kx)*sqr(L) < 1e-8) {
+        // limit Kx -> 0
+        dx = sqr(L)/(2e0*rho);
+        sx = L;
+        lx = cube(L)/6e0;
     } else if (Kx > 0e0) {
         dx = (1e0-cos(sqrt(Kx)*L))/(rho*Kx);
         sx = sin(sqrt(Kx)*L)/sqrt(Kx);
+        lx = (L-sx)/Kx;
     } else {
         dx = (1e0-cosh(sqrt(-Kx)*L))/(rho*Kx);
-        sx = sin(sqrt(Kx)*L)/sqrt(Kx);
+        sx = sinh(sqrt(-Kx)*L)/sqrt(-Kx);
+        lx = (L-sx)/Kx;
     }
 
     double Nk   = (sqr(1e0+2e0*eta0)+h)/(2e0*(1e0+eta0)*(1e0+2e0*eta0)),
@@ -360,7 +365,7 @@ void GetEBendMatrix(const double L, const double phi, const double fringe_x, con
            CorT = -real_gamma/(1e0+real_gamma),
            tx   = sx/rho*Nt*CorT,
            txp  = dx*Nt*CorT,
-           tzp  = (-L/(2e0*(1e0+eta0)*(1e0+2e0*eta0))+((L-sx)/Kx/sqr(rho))*Nk*Nt)*CorT;
+           tzp  = (-L/(2e0*(1e0+eta0)*(1e0+2e0*eta0))+(lx/sqr(rho))*Nk*Nt)*CorT;
 
     M(state_t::PS_X,  state_t::PS_PS) = dx*Nk/scl;
     M(state_t::PS_PX, state_t::PS_PS) = sx/rho*Nk/scl;
-- 
2.43.0


From 9d379bcc894b9bb8122036efc7c52f3ba6ec6727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:20 +0000
Subject: [PATCH 23/77] fix: reject numeric table entries which are not numbers

A data line ending in '-', '1e', '1e999' and the like lost its last entry, '1.2.3'
and '1-2' were read as two numbers, and blank lines ending in CR LF were taken for
rows without columns.
---
 src/util.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index e09378b..3d45d3e 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -37,7 +37,7 @@ void numeric_table::read(std::istream &strm)
         line++;
         values.clear();
 
-        size_t cpos = rawline.find_first_not_of(" \t");
+        size_t cpos = rawline.find_first_not_of(" \t\r");
         if(cpos==rawline.npos)
             continue; // skip blank and comment lines
 
@@ -67,17 +67,17 @@ void numeric_table::read(std::istream &strm)
             // data
 
             std::istringstream lstrm(rawline);
+            std::string ent;
 
-            while(lstrm.good()) {
+            while(lstrm>>ent) {
+                // each entry must be a number, and nothing but a number
+                std::istringstream estrm(ent);
                 double val;
-                lstrm>>val;
-                if(!lstrm.fail())
-                    values.push_back(val);
+                if(!(estrm>>val) || estrm.peek()!=std::istringstream::traits_type::eof())
+                    throw std::runtime_error(SB()<<"Error parsing data line "<<line<<" '"<<rawline<<"'");
+                values.push_back(val);
             }
 
-            if(!lstrm.eof() && lstrm.fail())
-                throw std::runtime_error(SB()<<"Error parsing data line "<<line<<" '"<<rawline<<"'");
-
             if(!table.empty() && table.back().size()!=values.size())
                 throw std::runtime_error(SB()<<"Line "<<line<<" w/ different # of elements");
 
-- 
2.43.0


From 7cd328765f548f64489ebef8b3b4fa2c4d158a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:20 +0000
Subject: [PATCH 24/77] fix: reading a numeric table must replace the previous
 contents

Reading an empty file kept the size of the previous table, and a file without
header kept the column names of the previous one.
---
 src/util.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 3d45d3e..439aa24 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -32,6 +32,8 @@ void numeric_table::read(std::istream &strm)
 
     std::vector<vector_t> table;
 
+    colnames_t names;
+
     unsigned line = 0;
     while(std::getline(strm, rawline)) {
         line++;
@@ -61,7 +63,7 @@ void numeric_table::read(std::istream &strm)
                 P = rawline.find_first_not_of(" \t", E);
             }
 
-            colnames.swap(cols);
+            names.swap(cols);
 
         } else {
             // data
@@ -92,7 +94,7 @@ void numeric_table::read(std::istream &strm)
     if(!strm.eof() && strm.fail())
         throw std::runtime_error(SB()<<"Error parsing line "<<line<<" '"<<rawline<<"'");
     else if(table.empty()) {
-        this->table.clear();
+        this->table.resize(0, 0, false);
     } else {
         value_t result(table.size(), table.front().size());
 
@@ -107,6 +109,7 @@ void numeric_table::read(std::istream &strm)
 
         this->table.swap(result);
     }
+    colnames.swap(names);
 }
 
 struct numeric_table_cache::Pvt {
-- 
2.43.0


From 58fadc151ce212c0f09cc7f9dee609341bbae569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:20 +0000
Subject: [PATCH 25/77] fix: refuse to make a table of values which don't fill
 its last row

---
 src/util.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util.cpp b/src/util.cpp
index 439aa24..24fd926 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -12,6 +12,8 @@
 
 void numeric_table::readvec(std::vector<double> vec, int numcol)
 {
+    if(numcol<=0 || vec.size()%numcol!=0)
+        throw std::runtime_error(SB()<<"Can't make a table with "<<numcol<<" columns from "<<vec.size()<<" values");
     value_t tabletmp(int(vec.size()/numcol),numcol);
     for (unsigned i=0; i < vec.size(); i++){
         int ii,jj;
-- 
2.43.0


From 7a422daa4c0fe19674b0ad997300e8005e2e2c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:53 +0000
Subject: [PATCH 26/77] fix: refuse incomplete lines and missing RF cavity line
 files

A line with too few numbers was accepted with uninitialized values,
a missing file was treated as an empty one (and only refused when propagating).
---
 src/rf_cavity.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 0bba5e6..38e8cd2 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -773,13 +773,15 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
 
         {
             std::ifstream fstrm(cavfile.c_str());
+            if(!fstrm.is_open())
+                throw std::runtime_error(SB()<<"Error opening '"<<cavfile<<"'");
 
             std::string rawline;
             unsigned line=0;
             while(std::getline(fstrm, rawline)) {
                 line++;
 
-                size_t cpos = rawline.find_first_not_of(" \t");
+                size_t cpos = rawline.find_first_not_of(" \t\r");
                 if(cpos==rawline.npos || rawline[cpos]=='%')
                     continue; // skip blank and comment lines
 
@@ -796,7 +798,7 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
                 else
                     params.E0 = 0.0;
 
-                if(lstrm.fail() && !lstrm.eof()) {
+                if(lstrm.fail()) {
                     throw std::runtime_error(SB()<<"Error parsing line '"<<line<<"' in '"<<cavfile<<"'");
                 }
                 lattice.push_back(params);
-- 
2.43.0


From e4537dd0a61e5fa5851b38239163e9aa62c3f1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:20 +0000
Subject: [PATCH 27/77] fix: report a malformed RF cavity data file

The parse error was printed only. The missing result was then remembered and dereferenced.
---
 src/rf_cavity.cpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 38e8cd2..042331b 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -815,17 +815,8 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
         std::string key(SB()<<DataFile<<"|"<<boost::filesystem::last_write_time(DataFile));
         if ( CavConfMap.find(key) == CavConfMap.end() ) {
             // not found in CavConfMap
-            try {
-                try {
-                    GLPSParser P;
-                    conf.reset(P.parse_file(DataFile.c_str()));
-                }catch(std::exception& e){
-                    std::cerr<<"Parse error: "<<e.what()<<"\n";
-                }
-
-            }catch(std::exception& e){
-                std::cerr<<"Error: "<<e.what()<<"\n";
-            }
+            GLPSParser P;
+            conf.reset(P.parse_file(DataFile.c_str()));
             CavConfMap.insert(std::make_pair(key, conf));
         } else {
             // found in CavConfMap
-- 
2.43.0


From 7f61f4757ef04c034cd86d25d24e5cacaba2519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:27 +0000
Subject: [PATCH 28/77] fix: refuse RF cavity data with missing values instead
 of reading past the end

---
 src/rf_cavity.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 042331b..273d0e0 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -636,6 +636,8 @@ double GetCavPhase(const int cavi, const Particle& ref, const double IonFys, con
         Fyc = 5.428*pow(IonEk, -0.5008) + 1.6;
         break;
     case 0:
+        if(P.size()<3)
+            throw std::runtime_error("*** GetCavPhase: 'attr' of 'AccGap' needs 23 values");
         Fyc = P[0]*pow(IonEk,P[1])- P[2];
         break;
     default:
@@ -756,8 +758,8 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
         try{
             numeric_table_cache::table_pointer ent = cache->fetch(fldmap);
             CavData = *ent;
-            if(CavData.table.size1()==0 || CavData.table.size2()<2)
-                throw std::runtime_error("field map needs 2+ columns");
+            if(CavData.table.size1()<2 || CavData.table.size2()<2)
+                throw std::runtime_error("field map needs 2+ rows and columns");
         }catch(std::exception& e){
             throw std::runtime_error(SB()<<"Error parsing '"<<fldmap<<"' : "<<e.what());
         }
@@ -841,6 +843,8 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
                 const double eV0(EC.get<double>("V0"));
                 params.E0 = eV0;
                 EC.tryGet<std::vector<double> >("attr", attrs);
+                if(attrs.size()<20)
+                    throw std::runtime_error(SB()<<"'attr' of '"<<etype<<"' needs 20+ values in '"<<DataFile<<"'");
                 for(int i=0; i<10; i++)
                 {
                     params.Tfit.push_back(attrs[i]);
@@ -852,7 +856,7 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
             }
             bool needSynAccTab = params.type=="AccGap";
             // SynAccTab should only update once
-            if(needSynAccTab && SynAccTab.size()==0)
+            if(needSynAccTab && SynAccTab.size()==0 && attrs.size()>=23)
             {
                 for(int i=0; i<3; i++)
                 {
@@ -866,13 +870,19 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
         bool checker = conf->tryGet<std::vector<double> >("Ez", Ez);
         if (!checker) throw std::runtime_error(SB()<<"'Ez' is missing in RF cavity file.\n");
         CavData.readvec(Ez,2);
+        if(CavData.table.size1()<2)
+            throw std::runtime_error(SB()<<"'Ez' needs 2+ points in '"<<DataFile<<"'");
         conf->tryGet<double>("Rm",cRm);
+        if(!(cRm>0.0))
+            throw std::runtime_error(SB()<<"'Rm' must be positive for '"<<DataFile<<"'");
 
         // Get extra parameters for complex synchronous phase definition
         have_RefNrm = conf->tryGet<double>("RefNorm", RefNrm);
         have_SynComplex = conf->tryGet<std::vector<double> >("SyncFit", SynComplex);
         have_EkLim = conf->tryGet<std::vector<double> >("EnergyLimit", EkLim);
         have_NrLim = conf->tryGet<std::vector<double> >("NormLimit", NrLim);
+        if((have_EkLim && EkLim.size()<2) || (have_NrLim && NrLim.size()<2))
+            throw std::runtime_error(SB()<<"'EnergyLimit' and 'NormLimit' need 2 values in '"<<DataFile<<"'");
     }
 }
 
@@ -1197,6 +1207,8 @@ void ElementRFCavity::GenCavMat2(const int cavi, const double dis, const double
             //IonFy = IonFy + real.IonZ*V0s[0]*kfac*(TTF_tab[2]*sin(IonFy)
             //        + TTF_tab[4]*cos(IonFy))/2/((gamma-1)*real.IonEs/MeVtoeV); //TTF_tab[2]~Tp
             seg    = seg + 1;
+            if(seg > 2)
+                throw std::runtime_error("*** GetCavMat: more than 2 AccGap");
             beta   = beta_tab[seg];
             gamma  = gamma_tab[seg];
             kfac   = 2e0*M_PI/(beta*Lambda);
@@ -1342,7 +1354,7 @@ void ElementRFCavity::GetCavMatGeneric(Particle &real, const double EfieldScl, c
             kfdy = kfdx;
             if(logme) {
                 FLAME_LOG(FINE)<<" X EFocus1 kfdx="<<kfdx<<"\n"
-                         <<" Y "<<linetab.E0[n]<<" "<<EfieldScl<<" "<<beta
+                         <<" Y "<<P.E0<<" "<<EfieldScl<<" "<<beta
                          <<" "<<gamma<<" "<<IonFy<<" "<<cRm<<"\n Z "<<T<<" "<<S<<"\n";
             }
 
-- 
2.43.0


From 0892ab9d5e3d6230b6a86eb181282157a01bf198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:40 +0000
Subject: [PATCH 29/77] fix: remember parsed curve and RF cavity data files by
 file, not by every modification time

A file replaced while it was parsed was remembered under the wrong time,
and one replaced by an older version was served from the version remembered under that time.
The maps were also shared between threads without protection.
---
 src/flame/moment_sup.h |  3 ++-
 src/flame/rf_cavity.h  |  1 -
 src/moment_sup.cpp     | 58 ++++++++++++++++++++++++++++--------------
 src/rf_cavity.cpp      | 14 +---------
 4 files changed, 42 insertions(+), 34 deletions(-)

diff --git a/src/flame/moment_sup.h b/src/flame/moment_sup.h
index e123a6a..da8cc37 100644
--- a/src/flame/moment_sup.h
+++ b/src/flame/moment_sup.h
@@ -5,7 +5,8 @@
 #include "base.h"
 #include "moment.h"
 
-static std::map<std::string,boost::shared_ptr<Config> > CurveMap;
+//! Parse a data file, or return the result remembered since the file was last modified.
+boost::shared_ptr<Config> ParseDataFile(const std::string& path, bool have_lattice);
 
 void inverse(MomentElementBase::value_t& out, const MomentElementBase::value_t& in);
 
diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 1240724..3377560 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -82,7 +82,6 @@ struct ElementRFCavity : public MomentElementBase
                         NrLim;      // Limits for normalization factor q*scl/m
 
     double calFitPow(double kfac, const std::vector<double>& Tfit) const;
-    static std::map<std::string,boost::shared_ptr<Config> > CavConfMap;
 
     std::vector<CavTLMLineType> CavTLMLineTab; // from lattice, for each charge state
     double fRF,    // RF frequency [Hz]
diff --git a/src/moment_sup.cpp b/src/moment_sup.cpp
index db282fa..d98ca64 100644
--- a/src/moment_sup.cpp
+++ b/src/moment_sup.cpp
@@ -2,9 +2,11 @@
 #include <boost/lexical_cast.hpp>
 #include <boost/filesystem.hpp>
 #include <boost/numeric/ublas/lu.hpp>
+#include <boost/thread/mutex.hpp>
 
 #include "flame/constants.h"
 #include "flame/moment.h"
+#include "flame/moment_sup.h"
 
 #define sqr(x)  ((x)*(x))
 #define cube(x) ((x)*(x)*(x))
@@ -15,7 +17,39 @@
     #define defpath "."
 #endif
 
-std::map<std::string,boost::shared_ptr<Config> > CurveMap;
+namespace {
+struct DataConfig {
+    std::time_t lastmod;
+    boost::shared_ptr<Config> conf;
+};
+typedef std::map<std::pair<std::string, bool>, DataConfig> DataConfigMap;
+boost::mutex DataConfigLock;
+DataConfigMap DataConfigs;
+}
+
+boost::shared_ptr<Config> ParseDataFile(const std::string& path, bool have_lattice)
+{
+    const std::pair<std::string, bool> key(path, have_lattice);
+    DataConfig ent;
+    ent.lastmod = boost::filesystem::last_write_time(path);
+    {
+        boost::mutex::scoped_lock L(DataConfigLock);
+        DataConfigMap::const_iterator it = DataConfigs.find(key);
+        if(it!=DataConfigs.end() && it->second.lastmod==ent.lastmod)
+            return it->second.conf;
+    }
+
+    GLPSParser P;
+    ent.conf.reset(P.parse_file(path.c_str(), have_lattice));
+
+    boost::mutex::scoped_lock L(DataConfigLock);
+    // don't remember when the file was replaced meanwhile
+    if(boost::filesystem::last_write_time(path)==ent.lastmod)
+        DataConfigs[key] = ent;
+    else
+        DataConfigs.erase(key);
+    return ent.conf;
+}
 
 // http://www.crystalclearsoftware.com/cgi-bin/boost_wiki/wiki.pl?LU_Matrix_Inversion
 // by LU-decomposition.
@@ -405,24 +439,10 @@ void GetCurveData(const Config &c, const unsigned ncurve, std::vector<double> &S
     if (checker){
         std::string CurveFile =  c.get<std::string>("Eng_Data_Dir", defpath);
         CurveFile += "/" + filename;
-        std::string key(SB()<<CurveFile<<"|"<<boost::filesystem::last_write_time(CurveFile));
-        if ( CurveMap.find(key) == CurveMap.end() ) {
-            // not found in CurveMap
-            try {
-                try {
-                    GLPSParser P;
-                    conf.reset(P.parse_file(CurveFile.c_str(), false));
-                }catch(std::exception& e){
-                    throw std::runtime_error(SB()<<"Parse error: "<<e.what()<<"\n");
-                }
-
-            }catch(std::exception& e){
-                throw std::runtime_error(SB()<<"Error: "<<e.what()<<"\n");
-            }
-            CurveMap.insert(std::make_pair(key, conf));
-        } else {
-            // found in CurveMap
-            conf=CurveMap[key];
+        try {
+            conf = ParseDataFile(CurveFile, false);
+        }catch(std::exception& e){
+            throw std::runtime_error(SB()<<"Error: Parse error: "<<e.what()<<"\n");
         }
     }
 
diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 273d0e0..30d3d32 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -19,8 +19,6 @@
     #define defpath "."
 #endif
 
-std::map<std::string,boost::shared_ptr<Config> > ElementRFCavity::CavConfMap;
-
 // RF Cavity beam dynamics functions.
 
 static double ipow(double base, int exp)
@@ -813,17 +811,7 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
     }
     else
     {
-        boost::shared_ptr<Config> conf;
-        std::string key(SB()<<DataFile<<"|"<<boost::filesystem::last_write_time(DataFile));
-        if ( CavConfMap.find(key) == CavConfMap.end() ) {
-            // not found in CavConfMap
-            GLPSParser P;
-            conf.reset(P.parse_file(DataFile.c_str()));
-            CavConfMap.insert(std::make_pair(key, conf));
-        } else {
-            // found in CavConfMap
-            conf=CavConfMap[key];
-        }
+        boost::shared_ptr<Config> conf(ParseDataFile(DataFile, true));
 
         typedef Config::vector_t elements_t;
         elements_t Es(conf->get<elements_t>("elements"));
-- 
2.43.0


From 8a84b7f9121de2613dd0711b8cab4049c73e45bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:40 +0000
Subject: [PATCH 30/77] fix: numeric table cache must notice each replacement
 of a file

A replacement with an older modification time was ignored, and one which happened
while reading was remembered as the contents of the new file.
---
 src/util.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 24fd926..52aa3c3 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -141,12 +141,12 @@ numeric_table_cache::table_pointer numeric_table_cache::fetch(const std::string&
     if(!P.is_absolute())
         throw std::logic_error("numeric_table_cache want's absolute paths");
 
-    std::time_t mtime = boost::filesystem::last_write_time(P);
-
     boost::mutex::scoped_lock L(pvt->lock);
 
+    std::time_t mtime = boost::filesystem::last_write_time(P);
+
     Pvt::cache_t::const_iterator it = pvt->cache.find(path);
-    if(it==pvt->cache.end() || mtime>it->second.lastmod) {
+    if(it==pvt->cache.end() || mtime!=it->second.lastmod) {
         // miss
 
         ret.reset(new numeric_table);
@@ -155,11 +155,16 @@ numeric_table_cache::table_pointer numeric_table_cache::fetch(const std::string&
 
         ret->read(strm);
 
-        Pvt::Value v;
-        v.lastmod = boost::filesystem::last_write_time(P); // fetch again to avoid some, but not all, races
-        v.table = ret;
+        // don't remember when the file was replaced while reading
+        if(boost::filesystem::last_write_time(P)==mtime) {
+            Pvt::Value v;
+            v.lastmod = mtime;
+            v.table = ret;
 
-        pvt->cache[path] = v;
+            pvt->cache[path] = v;
+        } else {
+            pvt->cache.erase(path);
+        }
     } else {
         ret = it->second.table;
     }
-- 
2.43.0


From 4887eec27b91a7f30575de9d478434f1aea2366f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:40 +0000
Subject: [PATCH 31/77] fix: refuse empty curves and reversed or negative curve
 ranges

---
 src/moment_sup.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/moment_sup.cpp b/src/moment_sup.cpp
index d98ca64..4fb1e00 100644
--- a/src/moment_sup.cpp
+++ b/src/moment_sup.cpp
@@ -462,17 +462,18 @@ void GetCurveData(const Config &c, const unsigned ncurve, std::vector<double> &S
             unsigned start, end;
             if (range.size() != 2)
                 throw std::runtime_error(SB()<<"Size of 'use_range' must be 2.\n");
+            if (!(range[0] >= 0 and range[0] <= range[1] and range[1] <= cv.size()))
+                throw std::runtime_error(SB()<<"'use_range' is out of curve size.\n");
             start = static_cast<unsigned>(range[0]);
             end   = static_cast<unsigned>(range[1]);
 
-            if (start > cv.size() or end > cv.size())
-                throw std::runtime_error(SB()<<"'use_range' is out of curve size.\n");
-
             std::vector<double> part(cv.begin()+start, cv.begin()+end);
             Curves.push_back(part);
         } else {
             Curves.push_back(cv);
         }
+        if (Curves.back().empty())
+            throw std::runtime_error(SB()<<"'curve" << num << "' has no points.\n");
 
         if (n != 0 and prev_size != cv.size())
             throw std::runtime_error(SB()<<"Size of 'curve" << n << "' (" << cv.size() <<") and 'curve" << n-1 <<
-- 
2.43.0


From 571c08ff87d8eb9e3eeab3a44cdb2a49c26dc8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:25 +0000
Subject: [PATCH 32/77] fix: charge stripper must refuse parameters with
 missing values

---
 src/chg_stripper.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/chg_stripper.cpp b/src/chg_stripper.cpp
index 6c735ca..ee56e8d 100644
--- a/src/chg_stripper.cpp
+++ b/src/chg_stripper.cpp
@@ -87,6 +87,11 @@ void ElementStripper::Stripper_GetMat(const Config &conf,
     Stripper_Para = conf.get<std::vector<double> >("Stripper_Para", p1_default);
     Stripper_E0Para = conf.get<std::vector<double> >("Stripper_E0Para", p2_default);
 
+    if(ChgState.empty())
+        throw std::runtime_error("charge stripper requires at least one of IonChargeStates[]");
+    if(Stripper_Para.size()<3 || Stripper_E0Para.size()<3)
+        throw std::runtime_error("charge stripper requires that Stripper_Para[] and Stripper_E0Para[] have 3 values");
+
     n = ChgState.size();
 
     if(chrgmdl=="off" )
-- 
2.43.0


From ae2790a4bb4b7228f3eb0a96dbb7562c1a6cb246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:38 +0000
Subject: [PATCH 33/77] fix: charge stripper must not give NaN for a beam
 without angular or energy spread

---
 src/chg_stripper.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/chg_stripper.cpp b/src/chg_stripper.cpp
index ee56e8d..447bcb5 100644
--- a/src/chg_stripper.cpp
+++ b/src/chg_stripper.cpp
@@ -129,7 +129,7 @@ void ElementStripper::Stripper_GetMat(const Config &conf,
     // Estimate Zp stripper caused envelope increase.
     stdEkFoilVariation = sqrt(1e0/3e0)*Stripper_Para[1]/100e0*Stripper_Para[0]*Stripper_E0Para[2];
     ZpAfStr            = tmpmat(5, 5) + sqr(Stripper_E1Para) + sqr(stdEkFoilVariation);
-    growthRate         = sqrt(ZpAfStr/tmpmat(5, 5));
+    growthRate         = tmpmat(5, 5) > 0e0 ? sqrt(ZpAfStr/tmpmat(5, 5)) : 1e0;
 
     for (k = 0; k < 6; k++) {
         tmpmat(k, 5) = tmpmat(k, 5)*growthRate;
@@ -140,9 +140,9 @@ void ElementStripper::Stripper_GetMat(const Config &conf,
     // Estimate Xp, Yp stripper caused envelope increase.
     stdXYp       = sqrt(Stripper_upara/sqr(Stripper_lambda))*1e-3;// mrad to rad
     XpAfStr      = tmpmat(1, 1) + sqr(stdXYp);
-    growthRateXp = sqrt(XpAfStr/tmpmat(1, 1));
+    growthRateXp = tmpmat(1, 1) > 0e0 ? sqrt(XpAfStr/tmpmat(1, 1)) : 1e0;
     YpAfStr      = tmpmat(3, 3) + sqr(stdXYp);
-    growthRateYp = sqrt(YpAfStr/tmpmat(3, 3));
+    growthRateYp = tmpmat(3, 3) > 0e0 ? sqrt(YpAfStr/tmpmat(3, 3)) : 1e0;
 
     for (k = 0; k < 6; k++) {
         tmpmat(k, 1) = tmpmat(k, 1)*growthRateXp;
@@ -152,6 +152,11 @@ void ElementStripper::Stripper_GetMat(const Config &conf,
         tmpmat(3, k) = tmpmat(3, k)*growthRateYp;
     }
 
+    // A growth rate can't increase what is zero.
+    if (tmpmat(1, 1) == 0e0) tmpmat(1, 1) = XpAfStr;
+    if (tmpmat(3, 3) == 0e0) tmpmat(3, 3) = YpAfStr;
+    if (tmpmat(5, 5) == 0e0) tmpmat(5, 5) = ZpAfStr;
+
     // Get new charge states.
 
 
-- 
2.43.0


From 1ec24702ec51e74489ae3628bce7e82148f02bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:01 +0000
Subject: [PATCH 34/77] fix: RF cavity emittance growth must not give NaN for a
 beam without spread

---
 src/rf_cavity.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 30d3d32..e2fb2b9 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -1557,6 +1557,15 @@ void ElementRFCavity::PropagateLongRFCav(Particle &ref, double& phi_ref) const
 }
 
 
+static
+double FPhi(const double x)
+{
+    // limit x -> 0
+    if (fabs(x) < 1e-4) return 1e0;
+    return 15e0/sqr(x)*(3e0/sqr(x)*(sin(x)/x-cos(x))-(sin(x)/x));
+}
+
+
 void ElementRFCavity::calRFcaviEmitGrowth(const state_t::matrix_t &matIn, Particle &state, const int n, const double betaf, const double gamaf,
                                           const double aveX2i, const double cenX, const double aveY2i, const double cenY,
                                           state_t::matrix_t &matOut)
@@ -1582,20 +1591,19 @@ void ElementRFCavity::calRFcaviEmitGrowth(const state_t::matrix_t &matIn, Partic
     DeltaPhi = sqrt(matIn(4, 4));
     // ionLamda in m, kpX in 1/mm
     kpX              = -M_PI*fabs(state.IonZ)*E0TL/state.IonEs/sqr(ave_beta*ave_gamma)/betaf/gamaf/ionLamda;
-    fDeltaPhi        = 15e0/sqr(DeltaPhi)*(3e0/sqr(DeltaPhi)*(sin(DeltaPhi)/DeltaPhi-cos(DeltaPhi))-(sin(DeltaPhi)/DeltaPhi));
-    f2DeltaPhi       = 15e0/sqr(2e0*DeltaPhi)*(3e0/sqr(2e0*DeltaPhi)
-                       *(sin(2e0*DeltaPhi)/(2e0*DeltaPhi)-cos(2e0*DeltaPhi))-(sin(2e0*DeltaPhi)/(2e0*DeltaPhi)));
+    fDeltaPhi        = FPhi(DeltaPhi);
+    f2DeltaPhi       = FPhi(2e0*DeltaPhi);
     gPhisDeltaPhi    = 0.5e0*(1+(sqr(sin(IonFys))-sqr(cos(IonFys)))*f2DeltaPhi);
     deltaAveXp2f     = kpX*kpX*(gPhisDeltaPhi-sqr(sin(IonFys)*fDeltaPhi))*(aveX2i+cenX*cenX);
     XpIncreaseFactor = 1e0;
 
-    if (deltaAveXp2f+matIn(1, 1) > 0e0) XpIncreaseFactor = sqrt((deltaAveXp2f+matIn(1, 1))/matIn(1, 1));
+    if (deltaAveXp2f+matIn(1, 1) > 0e0 && matIn(1, 1) > 0e0) XpIncreaseFactor = sqrt((deltaAveXp2f+matIn(1, 1))/matIn(1, 1));
 
      // ionLamda in m
     kpY = -M_PI*fabs(state.IonZ)*E0TL/state.IonEs/sqr(ave_beta*ave_gamma)/betaf/gamaf/ionLamda;
     deltaAveYp2f = sqr(kpY)*(gPhisDeltaPhi-sqr(sin(IonFys)*fDeltaPhi))*(aveY2i+sqr(cenY));
     YpIncreaseFactor = 1.0;
-    if (deltaAveYp2f+matIn(3, 3)>0) {
+    if (deltaAveYp2f+matIn(3, 3)>0 && matIn(3, 3) > 0e0) {
         YpIncreaseFactor = sqrt((deltaAveYp2f+matIn(3, 3))/matIn(3, 3));
     }
 
@@ -1606,7 +1614,7 @@ void ElementRFCavity::calRFcaviEmitGrowth(const state_t::matrix_t &matIn, Partic
     deltaAveZp2 = sqr(kpZ*DeltaPhi)*aveZ2i*(sqr(cos(IonFys))/8e0+DeltaPhi*sin(IonFys)/576e0);
     longiTransFactor = 1e0/(ave_gamma-1e0)/state.IonEs*MeVtoeV;
     ZpIncreaseFactor = 1e0;
-    if (deltaAveZp2+matIn(5, 5)*sqr(longiTransFactor) > 0e0)
+    if (deltaAveZp2+matIn(5, 5)*sqr(longiTransFactor) > 0e0 && matIn(5, 5) > 0e0)
         ZpIncreaseFactor = sqrt((deltaAveZp2+matIn(5, 5)*sqr(longiTransFactor))/(matIn(5, 5)*sqr(longiTransFactor)));
 
     for (k = 0; k < PS_Dim; k++) {
@@ -1617,6 +1625,11 @@ void ElementRFCavity::calRFcaviEmitGrowth(const state_t::matrix_t &matIn, Partic
         matOut(5, k) *= ZpIncreaseFactor;
         matOut(k, 5) *= ZpIncreaseFactor;
     }
+
+    // A factor can't increase what is zero.
+    if (matIn(1, 1) == 0e0 && deltaAveXp2f > 0e0) matOut(1, 1) = deltaAveXp2f;
+    if (matIn(3, 3) == 0e0 && deltaAveYp2f > 0e0) matOut(3, 3) = deltaAveYp2f;
+    if (matIn(5, 5) == 0e0 && deltaAveZp2 > 0e0) matOut(5, 5) = deltaAveZp2/sqr(longiTransFactor);
 }
 
 
-- 
2.43.0


From 4f7cef53697a7bca2d0bf3defbd4d0d0a9129f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:39 +0000
Subject: [PATCH 35/77] fix: HDF5 paths must find the file wherever in the path
 it ends and never loop forever

---
 src/glps_ops.cpp | 12 +++++-------
 src/h5loader.cpp | 11 ++++++-----
 src/h5writer.cpp |  9 ++++-----
 3 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/glps_ops.cpp b/src/glps_ops.cpp
index 2a8e101..d8f84c3 100644
--- a/src/glps_ops.cpp
+++ b/src/glps_ops.cpp
@@ -180,19 +180,17 @@ int unary_h5file(parse_context* ctxt, expr_value_t *R, const expr_t * const *A)
      * so do as h5ls does and strip off from the right hand side until
      * and try to open while '/' remain.
      */
-    size_t sep = inp.npos;
-
-    while(true) {
-        sep = inp.find_last_of('/', sep-1);
+    size_t sep = inp.size(); // start with the whole spec as file name
 
+    while(sep!=inp.npos && sep!=0) {
         path fname(absolute(inp.substr(0, sep), ctxt->cwd));
 
-        if(exists(fname)) {
+        if(is_regular_file(fname)) {
             *R = canonical(fname).native() + inp.substr(sep);
             return 0;
-        } else if(sep==inp.npos) {
-            break;
         }
+
+        sep = inp.find_last_of('/', sep-1);
     }
 
     std::ostringstream strm;
diff --git a/src/h5loader.cpp b/src/h5loader.cpp
index c1ce95a..1f49250 100644
--- a/src/h5loader.cpp
+++ b/src/h5loader.cpp
@@ -56,24 +56,25 @@ void H5Loader::open(const std::string& spec)
      * so do as h5ls does and strip off from the right hand side until
      * and try to open while '/' remain.
      */
-    size_t sep = spec.npos;
+    size_t sep = spec.npos; // start with the whole spec as file name
 
     while(true) {
-        sep = spec.find_last_of('/', sep-1);
-
         std::string fname(spec.substr(0, sep));
 
         try {
             pvt->file.openFile(fname, H5F_ACC_RDONLY);
         } catch(H5::FileIException& e) {
-            if(sep==spec.npos) {
+            sep = spec.find_last_of('/', sep==spec.npos ? sep : sep-1);
+            if(sep==spec.npos || sep==0) {
                 // no more '/' so this is failure
                 throw std::runtime_error("Unable to open file");
             }
             continue; // keep trying
         } CATCH()
 
-        std::string group(spec.substr(sep+1));
+        std::string group("/");
+        if(sep!=spec.npos && sep+1<spec.size())
+            group = spec.substr(sep+1);
 
         try {
             pvt->group = pvt->file.openGroup(group);
diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index 72237c5..f7bf37d 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -71,24 +71,23 @@ void H5StateWriter::open(const std::string& spec)
          * so do as h5ls does and strip off from the right hand side until
          * and try to open while '/' remain.
          */
-        size_t sep = spec.npos;
+        size_t sep = spec.npos; // start with the whole spec as file name
 
         while(true) {
-            sep = spec.find_last_of('/', sep-1);
-
             std::string fname(spec.substr(0, sep));
 
             try {
                 pvt->file.openFile(fname, H5F_ACC_RDWR|H5F_ACC_CREAT);
             } catch(H5::FileIException& e) {
-                if(sep==spec.npos) {
+                sep = spec.find_last_of('/', sep==spec.npos ? sep : sep-1);
+                if(sep==spec.npos || sep==0) {
                     // no more '/' so this is failure
                     throw std::runtime_error("Unable to open file");
                 }
                 continue; // keep trying
             } CATCH()
 
-            if(sep!=spec.npos) {
+            if(sep!=spec.npos && sep+1<spec.size()) {
                 std::string group(spec.substr(sep+1));
                 // delete group if it already exists
                 try{
-- 
2.43.0


From 4efae5431a07db2e80cf88fc1d6507fda9401b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:39 +0000
Subject: [PATCH 36/77] fix: HDF5 writer must not append to data sets of a file
 which has been closed

---
 src/h5writer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index f7bf37d..db11bbc 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -113,6 +113,8 @@ void H5StateWriter::open(const std::string& spec)
 void H5StateWriter::close()
 {
     try{
+        // the data sets belong to the file being closed
+        pvt->elements.clear();
         pvt->group.close();
         pvt->file.close();
     }CATCH()
-- 
2.43.0


From a97b22bcf52722cd9a8de9003cedd7e3675337a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:39 +0000
Subject: [PATCH 37/77] fix: HDF5 reader and writer must not leak the open file
 when construction fails

---
 src/h5loader.cpp | 14 ++++++++++++--
 src/h5writer.cpp | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/h5loader.cpp b/src/h5loader.cpp
index 1f49250..c80e84c 100644
--- a/src/h5loader.cpp
+++ b/src/h5loader.cpp
@@ -24,12 +24,22 @@ H5Loader::H5Loader() :pvt(new Pvt) {}
 
 H5Loader::H5Loader(const char *spec) :pvt(new Pvt)
 {
-    open(spec);
+    try {
+        open(spec);
+    } catch(...) {
+        delete pvt;
+        throw;
+    }
 }
 
 H5Loader::H5Loader(const std::string& spec) :pvt(new Pvt)
 {
-    open(spec);
+    try {
+        open(spec);
+    } catch(...) {
+        delete pvt;
+        throw;
+    }
 }
 
 H5Loader::~H5Loader()
diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index db11bbc..b5f9698 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -38,12 +38,22 @@ H5StateWriter::H5StateWriter() :pvt(new Pvt) {}
 
 H5StateWriter::H5StateWriter(const char *spec) :pvt(new Pvt)
 {
-    open(spec);
+    try {
+        open(spec);
+    } catch(...) {
+        delete pvt;
+        throw;
+    }
 }
 
 H5StateWriter::H5StateWriter(const std::string& spec) :pvt(new Pvt)
 {
-    open(spec);
+    try {
+        open(spec);
+    } catch(...) {
+        delete pvt;
+        throw;
+    }
 }
 
 H5StateWriter::~H5StateWriter()
-- 
2.43.0


From 8c6cb0dd216dd087cdaddf46f799b41999552a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:39 +0000
Subject: [PATCH 38/77] fix: HDF5 string attributes must not be read beyond
 their end

---
 src/h5writer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index b5f9698..274c3b8 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -255,9 +255,13 @@ void H5StateWriter::setAttr(const char *name, const char *val)
 
         {
             H5::DataSpace scalar;
-            H5::StrType dtype(H5::PredType::C_S1, std::max((size_t)16u, strlen(val)));
+            // nil terminated and padded, as write() always reads the full size
+            std::vector<char> buf(std::max((size_t)16u, strlen(val)+1u), '\0');
+            std::copy(val, val+strlen(val), buf.begin());
+
+            H5::StrType dtype(H5::PredType::C_S1, buf.size());
             H5::Attribute attr(pvt->group.createAttribute(name, dtype, scalar));
-            attr.write(dtype, val);
+            attr.write(dtype, &buf[0]);
         }
     } CATCH()
 }
-- 
2.43.0


From fe48ad951fd6cd9984aea2354ae6aa66589d8827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:04 +0000
Subject: [PATCH 39/77] fix: HDF5 writer must respect the strides of state
 arrays

---
 src/h5writer.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index 274c3b8..9be77f3 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -1,5 +1,7 @@
 
 
+#include <string.h>
+
 #include <sstream>
 
 #include <boost/foreach.hpp>
@@ -238,7 +240,27 @@ void H5StateWriter::append(const StateBase *RS)
 
             H5::DataType dtype(elem.dset.getDataType());
 
-            elem.dset.write(info.ptr, dtype, memspace, filespace);
+            // gather, as the state need not store the array contiguously
+            size_t total = 1;
+            for(unsigned d=0; d<info.ndim; d++)
+                total *= info.dim[d];
+
+            if(total==0)
+                continue;
+
+            const size_t esize = info.type==StateBase::ArrayInfo::Double ? sizeof(double) : sizeof(size_t);
+            std::vector<char> buf(total*esize);
+            size_t idx[StateBase::ArrayInfo::maxdims];
+            std::fill(idx, idx+StateBase::ArrayInfo::maxdims, 0);
+
+            for(size_t n=0; n<total; n++) {
+                memcpy(&buf[n*esize], info.raw(idx), esize);
+                // advance, last index fastest
+                for(unsigned d=info.ndim; d>0 && ++idx[d-1]>=info.dim[d-1]; d--)
+                    idx[d-1] = 0;
+            }
+
+            elem.dset.write(&buf[0], dtype, memspace, filespace);
 
         }
     } CATCH()
-- 
2.43.0


From 4189c12bf4c1196e5c7dac55f44334bc80ade12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:04 +0000
Subject: [PATCH 40/77] fix: HDF5 writer must keep previous records when the
 number of charge states changes

---
 src/h5writer.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index 9be77f3..46a442a 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -182,7 +182,9 @@ void H5StateWriter::prepare(const StateBase *RS)
             H5::DataSpace dspace(info.ndim+1, &dims[0], &maxdims[0]);
 
             dims[0] = 1024; // chunk size in "time" steps (arbitrary)
-            // other chunk sizes are multiple of initial size
+            // other chunk sizes are multiple of initial size (chunks can't be empty)
+            for(unsigned d=1; d<=info.ndim; d++)
+                dims[d] = std::max(dims[d], (hsize_t)1u);
             H5::DSetCreatPropList props;
             props.setChunk(info.ndim+1, &dims[0]);
 
@@ -225,7 +227,12 @@ void H5StateWriter::append(const StateBase *RS)
 
             // resize
             // always in time, maybe in other dimensions
-            elem.dset.extend(shape);
+            // never shrink as that would truncate the previous records
+            hsize_t extent[StateBase::ArrayInfo::maxdims+1];
+            elem.dset.getSpace().getSimpleExtentDims(extent);
+            for(unsigned d=0; d<=info.ndim; d++)
+                extent[d] = std::max(extent[d], shape[d]);
+            elem.dset.extend(extent);
 
             // filespace is hyper from [index,0...] to [index,shape]
             hsize_t start[StateBase::ArrayInfo::maxdims+1];
-- 
2.43.0


From 7893ec11b43cf4533107ca2f7f4102e69d661bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:53 +0000
Subject: [PATCH 41/77] fix: HDF5 writer must refuse a state of another type
 instead of mixing records

---
 src/h5writer.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index 46a442a..c5f60b7 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -210,6 +210,18 @@ void H5StateWriter::append(const StateBase *RS)
         if(pvt->elements.empty())
             prepare(RS);
 
+        // all records of a data set must have the same meaning
+        BOOST_FOREACH(const StateElement& elem, pvt->elements)
+        {
+            StateBase::ArrayInfo info;
+
+            if(!S->getArray(elem.idx, info)
+                    || strcmp(elem.info.name, info.name)!=0
+                    || elem.info.ndim!=info.ndim
+                    || elem.info.type!=info.type)
+                throw std::logic_error("can't record different types of state in one group");
+        }
+
         BOOST_FOREACH(StateElement& elem, pvt->elements)
         {
             StateBase::ArrayInfo info;
@@ -217,8 +229,6 @@ void H5StateWriter::append(const StateBase *RS)
             if(!S->getArray(elem.idx, info))
                 throw std::logic_error("can't re-fetch state parameter?");
 
-            assert((elem.info.ndim==info.ndim) && (elem.info.type==info.type));
-
             hsize_t shape[StateBase::ArrayInfo::maxdims+1];
             shape[0] = ++elem.nextrow;
             std::copy(info.dim,
-- 
2.43.0


From acd0d66981a94613053232950641acc1a8b03c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:59 +0000
Subject: [PATCH 42/77] fix: discarding or refusing a registration must not
 free or leak element types used by a Machine

---
 src/base.cpp     | 15 +++------------
 src/flame/base.h |  8 +++++---
 2 files changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/base.cpp b/src/base.cpp
index 341cfdd..da626ec 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -130,7 +130,7 @@ Machine::Machine(const Config& c)
         if(eit==p_info.elements.end())
             throw key_error(etype);
 
-        element_builder_t* builder = eit->second;
+        element_builder_t* builder = eit->second.get();
 
         ElementVoid *E;
         try{
@@ -224,7 +224,7 @@ void Machine::reconfigure(size_t idx, const Config& c)
     if(eit==p_info.elements.end())
         throw key_error(etype);
 
-    element_builder_t *builder = eit->second;
+    element_builder_t *builder = eit->second.get();
 
     ElementVoid * const E = p_elements[idx];
     const LookupKey oldkey(E->name, idx), newkey(c.get<std::string>("name"), idx);
@@ -259,7 +259,7 @@ void Machine::p_registerState(const char *name, state_builder_t b)
     p_state_infos[name] = I;
 }
 
-void Machine::p_registerElement(const std::string& sname, const char *ename, element_builder_t *b)
+void Machine::p_registerElement(const std::string& sname, const char *ename, const boost::shared_ptr<element_builder_t>& b)
 {
     info_mutex_t::scoped_lock G(info_mutex);
     p_state_infos_t::iterator it = p_state_infos.find(sname);
@@ -282,15 +282,6 @@ void Machine::registeryCleanup()
 {
     info_mutex_t::scoped_lock G(info_mutex);
 
-    for(p_state_infos_t::iterator it=p_state_infos.begin(), end=p_state_infos.end();
-        it!=end; ++it)
-    {
-        state_info::elements_t::iterator it2, end2;
-        for(it2=it->second.elements.begin(), end2=it->second.elements.end(); it2!=end2; ++it2)
-        {
-            delete it2->second;
-        }
-    }
     p_state_infos.clear();
 }
 
diff --git a/src/flame/base.h b/src/flame/base.h
index 37b130c..c1289a4 100644
--- a/src/flame/base.h
+++ b/src/flame/base.h
@@ -425,7 +425,8 @@ private:
     struct state_info {
         std::string name;
         state_builder_t builder;
-        typedef std::map<std::string, element_builder_t*> elements_t;
+        // shared with each Machine as these may outlive the registration
+        typedef std::map<std::string, boost::shared_ptr<element_builder_t> > elements_t;
         elements_t elements;
     };
 
@@ -436,7 +437,7 @@ private:
 
     static void p_registerState(const char *name, state_builder_t b);
 
-    static void p_registerElement(const std::string& sname, const char *ename, element_builder_t* b);
+    static void p_registerElement(const std::string& sname, const char *ename, const boost::shared_ptr<element_builder_t>& b);
 
 public:
 
@@ -477,7 +478,8 @@ public:
     template<typename Element>
     static void registerElement(const char *sname, const char *ename)
     {
-        p_registerElement(sname, ename, new element_builder_impl<Element>);
+        boost::shared_ptr<element_builder_t> b(new element_builder_impl<Element>);
+        p_registerElement(sname, ename, b);
     }
 
     /**
-- 
2.43.0


From ab8ff1db094b1eaa8be479dc317b8c681d4b7915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:59 +0000
Subject: [PATCH 43/77] fix: constructing an element which logs must not
 deadlock

---
 src/base.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/base.cpp b/src/base.cpp
index da626ec..7cb4b04 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -100,16 +100,19 @@ Machine::Machine(const Config& c)
     p_simtype = type;
     FLAME_LOG(INFO)<<"Constructing Machine w/ sim_type='"<<type<<'\'';
 
-    info_mutex_t::scoped_lock G(info_mutex);
+    {
+        // not held while constructing elements, as these may log
+        info_mutex_t::scoped_lock G(info_mutex);
 
-    p_state_infos_t::iterator it = p_state_infos.find(type);
-    if(it==p_state_infos.end()) {
-        std::ostringstream msg;
-        msg<<"Unsupport sim_type '"<<type<<"'";
-        throw key_error(msg.str());
-    }
+        p_state_infos_t::iterator it = p_state_infos.find(type);
+        if(it==p_state_infos.end()) {
+            std::ostringstream msg;
+            msg<<"Unsupport sim_type '"<<type<<"'";
+            throw key_error(msg.str());
+        }
 
-    p_info = it->second;
+        p_info = it->second;
+    }
 
     typedef Config::vector_t elements_t;
     elements_t Es(c.get<elements_t>("elements"));
@@ -162,8 +165,6 @@ Machine::Machine(const Config& c)
         result_t.insert(std::make_pair(LookupKey(etype, E->index), E));
     }
 
-    G.unlock();
-
     p_elements.swap(result);
     p_lookup.swap(result_l);
     p_lookup_type.swap(result_t);
-- 
2.43.0


From 18bf555e51114d02eb7f5f9e6785347891a800e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:13 +0000
Subject: [PATCH 44/77] fix: propagate() must refuse a state of another
 sim_type

---
 src/base.cpp     | 7 ++++++-
 src/flame/base.h | 8 ++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/base.cpp b/src/base.cpp
index 7cb4b04..a411ca8 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -182,6 +182,10 @@ Machine::~Machine()
 void
 Machine::propagate(StateBase* S, size_t start, int max) const
 {
+    // the elements will cast to the type of state for our sim_type
+    if(!(*p_info.test)(*S))
+        throw std::invalid_argument("State is not of the type used by this Machine's sim_type");
+
     const size_t nelem = p_elements.size();
 
     S->next_elem = start;
@@ -246,7 +250,7 @@ void Machine::reconfigure(size_t idx, const Config& c)
 
 Machine::p_state_infos_t Machine::p_state_infos;
 
-void Machine::p_registerState(const char *name, state_builder_t b)
+void Machine::p_registerState(const char *name, state_builder_t b, state_test_t t)
 {
     info_mutex_t::scoped_lock G(info_mutex);
     if(p_state_infos.find(name)!=p_state_infos.end()) {
@@ -257,6 +261,7 @@ void Machine::p_registerState(const char *name, state_builder_t b)
     state_info I;
     I.name = name;
     I.builder = b;
+    I.test = t;
     p_state_infos[name] = I;
 }
 
diff --git a/src/flame/base.h b/src/flame/base.h
index c1289a4..481fd20 100644
--- a/src/flame/base.h
+++ b/src/flame/base.h
@@ -396,10 +396,13 @@ private:
     Config p_conf;
 
     typedef StateBase* (*state_builder_t)(const Config& c);
+    typedef bool (*state_test_t)(const StateBase& s);
     template<typename State>
     struct state_builder_impl {
         static StateBase* build(const Config& c)
         { return new State(c); }
+        static bool test(const StateBase& s)
+        { return dynamic_cast<const State*>(&s)!=NULL; }
     };
     struct element_builder_t {
         virtual ~element_builder_t() {}
@@ -425,6 +428,7 @@ private:
     struct state_info {
         std::string name;
         state_builder_t builder;
+        state_test_t test;
         // shared with each Machine as these may outlive the registration
         typedef std::map<std::string, boost::shared_ptr<element_builder_t> > elements_t;
         elements_t elements;
@@ -435,7 +439,7 @@ private:
     typedef std::map<std::string, state_info> p_state_infos_t;
     static p_state_infos_t p_state_infos;
 
-    static void p_registerState(const char *name, state_builder_t b);
+    static void p_registerState(const char *name, state_builder_t b, state_test_t t);
 
     static void p_registerElement(const std::string& sname, const char *ename, const boost::shared_ptr<element_builder_t>& b);
 
@@ -461,7 +465,7 @@ public:
     template<typename State>
     static void registerState(const char *name)
     {
-        p_registerState(name, &state_builder_impl<State>::build);
+        p_registerState(name, &state_builder_impl<State>::build, &state_builder_impl<State>::test);
     }
 
     /**
-- 
2.43.0


From cd8258adfbae95c64a193acadd9a3c23d0e2386c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:13 +0000
Subject: [PATCH 45/77] fix: a logger which throws must not terminate the
 process

---
 src/base.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/base.cpp b/src/base.cpp
index a411ca8..8e0aaa6 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -340,5 +340,10 @@ Machine::LogRecord::~LogRecord()
         info_mutex_t::scoped_lock G(info_mutex);
         logger = p_logger;
     }
-    logger->log(*this);
+    try {
+        logger->log(*this);
+    } catch(std::exception& e) {
+        // can't be allowed to leave a destructor
+        std::cerr<<"Error while logging : "<<e.what()<<"\n";
+    }
 }
-- 
2.43.0


From 1d687279721f161ff0eabe5902d343a05f552198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:59 +0000
Subject: [PATCH 46/77] fix: Machine methods and a failing Machine() must raise
 instead of using a missing Machine

---
 python/flame/modmachine.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index af91b72..87f3d34 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -6,6 +6,8 @@
 
 
 #define TRY PyMachine *machine = reinterpret_cast<PyMachine*>(raw); try
+// for methods which need a Machine, which does not exist until __init__ has been called
+#define NEED_MACHINE() if(!machine->machine) throw std::runtime_error("Machine is not initialized")
 
 namespace {
 
@@ -19,12 +21,15 @@ struct PyMachine {
 static
 int PyMachine_init(PyObject *raw, PyObject *args, PyObject *kws)
 {
-    TRY {
-        assert(!machine->weak);
-
+    PyMachine *machine = reinterpret_cast<PyMachine*>(raw);
+    try {
         std::auto_ptr<Config> C(PyGLPSParse2Config(raw, args, kws));
+        if(!C.get())
+            return -1; // a py exception is active
+
+        std::auto_ptr<Machine> M(new Machine(*C)), old(machine->machine);
 
-        machine->machine = new Machine(*C);
+        machine->machine = M.release();
 
         return 0;
     } CATCH3(key_error, KeyError, -1)
@@ -50,6 +55,7 @@ static
 PyObject *PyMachine_str(PyObject *raw)
 {
     TRY {
+        NEED_MACHINE();
         std::ostringstream strm;
         strm << *(machine->machine);
         return PyString_FromString(strm.str().c_str());
@@ -60,6 +66,7 @@ static
 PyObject *PyMachine_conf(PyObject *raw, PyObject *args, PyObject *kws)
 {
     TRY {
+        NEED_MACHINE();
         PyObject *pyindex = Py_None;
         const char *pnames[] = {"index", NULL};
         if(!PyArg_ParseTupleAndKeywords(args, kws, "|O", (char**)pnames, &pyindex))
@@ -87,6 +94,7 @@ static
 PyObject *PyMachine_allocState(PyObject *raw, PyObject *args, PyObject *kws)
 {
     TRY {
+        NEED_MACHINE();
         PyObject *d = Py_None, *W = Py_False;
         const char *pnames[] = {"config", "inherit", NULL};
         if(!PyArg_ParseTupleAndKeywords(args, kws, "|OO", (char**)pnames, &d, &W))
@@ -157,6 +165,7 @@ PyObject *PyMachine_propagate(PyObject *raw, PyObject *args, PyObject *kws)
 {
 
     TRY {
+        NEED_MACHINE();
         PyObject *state, *toobserv = Py_None, *pymax = Py_None;
         unsigned long start = 0;
         int max = INT_MAX;
@@ -195,6 +204,7 @@ static
 PyObject *PyMachine_reconfigure(PyObject *raw, PyObject *args, PyObject *kws)
 {
     TRY{
+        NEED_MACHINE();
         unsigned long idx;
         PyObject *conf, *replace = Py_False;
         const char *pnames[] = {"index", "config", "replace", NULL};
@@ -222,6 +232,7 @@ static
 PyObject *PyMachine_find(PyObject *raw, PyObject *args, PyObject *kws)
 {
     TRY{
+        NEED_MACHINE();
         const char *ename = NULL, *etype = NULL;
         const char *pnames[] = {"name", "type", NULL};
         if(!PyArg_ParseTupleAndKeywords(args, kws, "|zz", (char**)pnames, &ename, &etype))
@@ -258,6 +269,7 @@ static
 Py_ssize_t PyMachine_len(PyObject *raw)
 {
     TRY{
+        NEED_MACHINE();
         return machine->machine->size();
     }CATCH1(-1)
 }
-- 
2.43.0


From 2605972b7dbd4507bf6f807956bb2f4e8a6ef173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:59 +0000
Subject: [PATCH 47/77] fix: propagate() from python must not run when its
 arguments are invalid

---
 python/flame/modmachine.cpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index 87f3d34..5c5eb22 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -173,23 +173,37 @@ PyObject *PyMachine_propagate(PyObject *raw, PyObject *args, PyObject *kws)
         if(!PyArg_ParseTupleAndKeywords(args, kws, "O|kOO", (char**)pnames, &state, &start, &pymax, &toobserv))
             return NULL;
 
-        if (pymax!=Py_None) max = (int) PyLong_AsLong(pymax);
+        if (pymax!=Py_None) {
+            long lmax = PyLong_AsLong(pymax);
+            if(lmax==-1 && PyErr_Occurred())
+                return NULL;
+            if(lmax>INT_MAX || lmax<INT_MIN)
+                return PyErr_Format(PyExc_OverflowError, "max out of range");
+            max = (int) lmax;
+        }
 
-        PyStoreObserver observer;
-        PyScopedObserver observing(machine->machine);
+        // fetch all before touching the Machine, as this may run arbitrary python code
+        std::vector<Py_ssize_t> indices;
 
         if(toobserv!=Py_None) {
             PyRef<> iter(PyObject_GetIter(toobserv)), item;
 
             while(item.reset(PyIter_Next(iter.py()), PyRef<>::allow_null())) {
                 Py_ssize_t num = PyNumber_AsSsize_t(item.py(), PyExc_ValueError);
-                if(PyErr_Occurred())
-                    throw std::runtime_error(""); // caller will get active python exception
-                observing.observe(num, &observer);
-
+                if(num==-1 && PyErr_Occurred())
+                    return NULL;
+                indices.push_back(num);
             }
+            if(PyErr_Occurred())
+                return NULL;
         }
 
+        PyStoreObserver observer;
+        PyScopedObserver observing(machine->machine);
+
+        for(size_t i=0; i<indices.size(); i++)
+            observing.observe(indices[i], &observer);
+
         machine->machine->propagate(unwrapstate(state), start, max);
         if(toobserv) {
             return observer.list.release();
-- 
2.43.0


From 73fa2403d5e968f28172259fe5e85fa8019a25fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:59 +0000
Subject: [PATCH 48/77] fix: python errors from flag arguments must be raised

---
 python/flame/modmachine.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index 5c5eb22..b581e0f 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -104,7 +104,10 @@ PyObject *PyMachine_allocState(PyObject *raw, PyObject *args, PyObject *kws)
         if(d==Py_None) {
             C = machine->machine->conf();
         } else if(PyDict_Check(d)) {
-            if(PyObject_IsTrue(W)) {
+            int inherit = PyObject_IsTrue(W);
+            if(inherit<0)
+                return NULL;
+            if(inherit) {
                 C = machine->machine->conf();
                 C.push_scope();
             }
@@ -228,8 +231,12 @@ PyObject *PyMachine_reconfigure(PyObject *raw, PyObject *args, PyObject *kws)
         if(idx>=machine->machine->size())
             return PyErr_Format(PyExc_ValueError, "invalid element index %lu", idx);
 
+        int doreplace = PyObject_IsTrue(replace);
+        if(doreplace<0)
+            return NULL;
+
         Config newconf;
-        if(!PyObject_IsTrue(replace))
+        if(!doreplace)
             newconf = (*machine->machine)[idx]->conf();
 
         PyRef<> list(PyMapping_Items(conf));
-- 
2.43.0


From 12a5d21dfb99fabe5e31d6fcefe339d95409188c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:59 +0000
Subject: [PATCH 49/77] fix: a state must be freed exactly once when wrapping
 it for python fails

---
 python/flame/modmachine.cpp | 9 ++-------
 python/flame/modstate.cpp   | 9 +++------
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index b581e0f..16937b1 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -116,10 +116,7 @@ PyObject *PyMachine_allocState(PyObject *raw, PyObject *args, PyObject *kws)
         } else {
             return PyErr_Format(PyExc_ValueError, "allocState() needs config=None or {}");
         }
-        std::auto_ptr<StateBase> state(machine->machine->allocState(C));
-        PyObject *ret = wrapstate(state.get());
-        state.release();
-        return ret;
+        return wrapstate(machine->machine->allocState(C));
     } CATCH()
 }
 
@@ -133,9 +130,7 @@ struct PyStoreObserver : public Observer
     virtual void view(const ElementVoid* elem, const StateBase* state)
     {
         PyRef<> tuple(PyTuple_New(2));
-        std::auto_ptr<StateBase> tmpstate(state->clone());
-        PyRef<> statecopy(wrapstate(tmpstate.get()));
-        tmpstate.release();
+        PyRef<> statecopy(wrapstate(state->clone()));
 
         PyTuple_SET_ITEM(tuple.py(), 0, PyInt_FromSize_t(elem->index));
         PyTuple_SET_ITEM(tuple.py(), 1, statecopy.release());
diff --git a/python/flame/modstate.cpp b/python/flame/modstate.cpp
index 5a071f2..bba116c 100644
--- a/python/flame/modstate.cpp
+++ b/python/flame/modstate.cpp
@@ -291,11 +291,7 @@ static
 PyObject* PyState_clone(PyObject *raw, PyObject *unused)
 {
     TRY {
-        std::auto_ptr<StateBase> newstate(state->state->clone());
-
-        PyObject *ret = wrapstate(newstate.get());
-        newstate.release();
-        return ret;
+        return wrapstate(state->state->clone());
     } CATCH()
 }
 
@@ -341,11 +337,12 @@ static PyTypeObject PyStateType = {
 PyObject* wrapstate(StateBase* b)
 {
     try {
+        std::auto_ptr<StateBase> owner(b);
 
         PyRef<PyState> state(PyStateType.tp_alloc(&PyStateType, 0));
 
-        state->state = b;
         state->attrs = state->weak = state->dict = 0;
+        state->state = owner.release();
 
         state->attrs = PyDict_New();
         if(!state->attrs)
-- 
2.43.0


From 2b26230014ed686186baf9ac9b049d05b937a279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:59 +0000
Subject: [PATCH 50/77] fix: deleting a state attribute from python must raise
 instead of crashing

---
 python/flame/modstate.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/flame/modstate.cpp b/python/flame/modstate.cpp
index bba116c..e7e37c1 100644
--- a/python/flame/modstate.cpp
+++ b/python/flame/modstate.cpp
@@ -141,6 +141,11 @@ int PyState_setattro(PyObject *raw, PyObject *attr, PyObject *val)
             return PyObject_GenericSetAttr(raw, attr, val);
         int i = PyInt_AsLong(idx);
 
+        if(!val) {
+            PyErr_Format(PyExc_AttributeError, "Can't delete a state attribute");
+            return -1;
+        }
+
         StateBase::ArrayInfo info;
 
         if(!state->state->getArray(i, info)) {
-- 
2.43.0


From 3c8760508c6f5082f8581250876c379ce7c73ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:59 +0000
Subject: [PATCH 51/77] fix: assigning an invalid value to a state attribute
 must leave the state unchanged

---
 python/flame/modstate.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/python/flame/modstate.cpp b/python/flame/modstate.cpp
index e7e37c1..905733b 100644
--- a/python/flame/modstate.cpp
+++ b/python/flame/modstate.cpp
@@ -158,27 +158,35 @@ int PyState_setattro(PyObject *raw, PyObject *attr, PyObject *val)
 
             switch(info.type) {
             case StateBase::ArrayInfo::Double: {
-                double *dest = (double*)info.ptr;
+                double cval = 0.0;
                 if(PyFloat_Check(val))
-                    *dest = PyFloat_AsDouble(val);
+                    cval = PyFloat_AsDouble(val);
                 else if(PyLong_Check(val))
-                    *dest = PyLong_AsDouble(val);
+                    cval = PyLong_AsDouble(val);
                 else if(PyInt_Check(val))
-                    *dest = PyInt_AsLong(val);
+                    cval = PyInt_AsLong(val);
                 else
                     PyErr_Format(PyExc_ValueError, "Can't assign to double field");
+                if(!PyErr_Occurred())
+                    *(double*)info.ptr = cval;
             }
                 break;
             case StateBase::ArrayInfo::Sizet: {
-                size_t *dest = (size_t*)info.ptr;
-                if(PyFloat_Check(val))
-                    *dest = PyFloat_AsDouble(val);
-                else if(PyLong_Check(val))
-                    *dest = PyLong_AsUnsignedLongLong(val);
+                size_t cval = 0u;
+                if(PyFloat_Check(val)) {
+                    double fval = PyFloat_AsDouble(val);
+                    if(fval>=0.0 && fval<(double)SIZE_MAX)
+                        cval = fval;
+                    else
+                        PyErr_Format(PyExc_ValueError, "Value out of range for size field");
+                } else if(PyLong_Check(val))
+                    cval = PyLong_AsUnsignedLongLong(val);
                 else if(PyInt_Check(val))
-                    *dest = PyInt_AsLong(val);
+                    cval = PyInt_AsLong(val);
                 else
                     PyErr_Format(PyExc_ValueError, "Can't assign to double field");
+                if(!PyErr_Occurred())
+                    *(size_t*)info.ptr = cval;
             }
                 break;
             default:
-- 
2.43.0


From 49d4987597a0551bc73994b961573ce65d5fc222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:59 +0000
Subject: [PATCH 52/77] fix: assigning an array must not use storage which
 conversion of the value has replaced

---
 python/flame/modstate.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/flame/modstate.cpp b/python/flame/modstate.cpp
index 905733b..072bc7c 100644
--- a/python/flame/modstate.cpp
+++ b/python/flame/modstate.cpp
@@ -210,6 +210,12 @@ int PyState_setattro(PyObject *raw, PyObject *attr, PyObject *val)
         //  means assignment with wrong cardinality
         PyRef<PyArrayObject> arr(PyArray_FromObject(val, pytype, info.ndim, info.ndim));
 
+        // the conversion may have run python code which used this state
+        if(!state->state->getArray(i, info)) {
+            PyErr_Format(PyExc_RuntimeError, "invalid attribute name (sub-class forgot %d)", i);
+            return -1;
+        }
+
         if(info.ndim!=(size_t)PyArray_NDIM(arr.py())) {
             PyErr_Format(PyExc_ValueError, "cardinality don't match");
             return -1;
-- 
2.43.0


From 6725c7a24abdbdd620076984b7c6e80165c865a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:59 +0000
Subject: [PATCH 53/77] fix: a state being freed must not be visible to the
 python garbage collector

---
 python/flame/modstate.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/flame/modstate.cpp b/python/flame/modstate.cpp
index 072bc7c..8dc2650 100644
--- a/python/flame/modstate.cpp
+++ b/python/flame/modstate.cpp
@@ -50,6 +50,9 @@ static
 void PyState_free(PyObject *raw)
 {
     TRY {
+        // no garbage collection while being taken apart
+        PyObject_GC_UnTrack(raw);
+
         std::auto_ptr<StateBase> S(state->state);
         state->state = NULL;
 
-- 
2.43.0


From 94ef8432f0c25baa604e51197eee439c4f397f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:59 +0000
Subject: [PATCH 54/77] fix: python log messages must not lose their last
 character

---
 python/flame/modmain.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/flame/modmain.cpp b/python/flame/modmain.cpp
index 715cdaf..4032d5c 100644
--- a/python/flame/modmain.cpp
+++ b/python/flame/modmain.cpp
@@ -21,9 +21,8 @@ struct PyLogger : public Machine::Logger
     {
         if(logger.py()) {
             std::string msg(r.strm.str());
-            size_t pos = msg.find_last_not_of('\n');
-            if(pos!=msg.npos)
-                msg = msg.substr(0, pos);
+            // npos+1==0 when there are only newlines
+            msg.resize(msg.find_last_not_of('\n')+1);
 
             // name, level, function name, lineno, message, args, exc_info
             PyRef<> rec(PyObject_CallMethod(logger.py(), "makeRecord", "sHsHsOO",
-- 
2.43.0


From 7feb83892d3f125cfade1ef740347e5b84ed2ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:27 +0000
Subject: [PATCH 55/77] fix: python errors while logging must not become errors
 of the simulation

---
 python/flame/modmain.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/python/flame/modmain.cpp b/python/flame/modmain.cpp
index 4032d5c..78a9a77 100644
--- a/python/flame/modmain.cpp
+++ b/python/flame/modmain.cpp
@@ -24,11 +24,23 @@ struct PyLogger : public Machine::Logger
             // npos+1==0 when there are only newlines
             msg.resize(msg.find_last_not_of('\n')+1);
 
-            // name, level, function name, lineno, message, args, exc_info
-            PyRef<> rec(PyObject_CallMethod(logger.py(), "makeRecord", "sHsHsOO",
-                                            FLAME_LOGGER_NAME, r.level, r.fname, r.lnum,
-                                            msg.c_str(), Py_None, Py_None));
-            PyRef<> junk(PyObject_CallMethod(logger.py(), "handle", "O", rec.py()));
+            // don't disturb an exception which is already active
+            PyObject *etype, *evalue, *etrace;
+            PyErr_Fetch(&etype, &evalue, &etrace);
+
+            try {
+                PyRef<> text(PyUnicode_DecodeUTF8(msg.c_str(), msg.size(), "replace"));
+                // name, level, function name, lineno, message, args, exc_info
+                PyRef<> rec(PyObject_CallMethod(logger.py(), "makeRecord", "sHsHOOO",
+                                                FLAME_LOGGER_NAME, r.level, r.fname, r.lnum,
+                                                text.py(), Py_None, Py_None));
+                PyRef<> junk(PyObject_CallMethod(logger.py(), "handle", "O", rec.py()));
+            } catch(std::bad_alloc&) {
+                // an error while logging must not become an error of the caller
+                PyErr_WriteUnraisable(logger.py());
+            }
+
+            PyErr_Restore(etype, evalue, etrace);
         }
     }
     static void noopdtor(Machine::Logger*) {}
-- 
2.43.0


From 8c42e778a2ab9b9f6aca7f27a773d424c8b9363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:27 +0000
Subject: [PATCH 56/77] fix: python conversions must not leak

---
 python/flame/modconfig.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index f4657d9..8590e07 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -67,7 +67,7 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
                     elem.reset(PyMapping_Items(elem.py()));
                 }
                 if(!PyList_Check(elem.py())) {
-                    PyTypeObject *valuetype = (PyTypeObject*)PyObject_Type(elem.py());
+                    PyTypeObject *valuetype = Py_TYPE(elem.py());
                     throw std::invalid_argument(SB()<<"lists must contain only dict or list of tuples, not "<<valuetype->tp_name);
                 }
 
@@ -79,7 +79,7 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
             ret.set<Config::vector_t>(kname, output);
 
         } else {
-            PyTypeObject *valuetype = (PyTypeObject*)PyObject_Type(value);
+            PyTypeObject *valuetype = Py_TYPE(value);
             throw std::invalid_argument(SB()<<"Must be a dict, not "<<valuetype->tp_name);
         }
     }
@@ -237,7 +237,9 @@ Config* PyGLPSParse2Config(PyObject *, PyObject *args, PyObject *kws)
         PyCString pyname;
 
         if(!path && PyObject_HasAttrString(conf, "name")) {
-            path = pyname.c_str(pydirname(PyObject_GetAttrString(conf, "name")));
+            PyRef<> name(PyObject_GetAttrString(conf, "name"));
+            PyRef<> dir(pydirname(name.py()));
+            path = pyname.c_str(dir.py());
         }
 
         PyRef<> pybytes(PyObject_CallMethod(conf, "read", ""));
@@ -277,6 +279,7 @@ Config* PyGLPSParse2Config(PyObject *, PyObject *args, PyObject *kws)
 PyObject* PyGLPSParse(PyObject *unused, PyObject *args, PyObject *kws)
 {
     try{
-        return conf2dict(PyGLPSParse2Config(unused, args, kws));
+        std::auto_ptr<Config> C(PyGLPSParse2Config(unused, args, kws));
+        return conf2dict(C.get());
     }CATCH()
 }
-- 
2.43.0


From 864a0a62d434d0d3a242c936c3f476f11d5275a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:27 +0000
Subject: [PATCH 57/77] fix: python configurations which can't be converted
 must raise

---
 python/flame/modconfig.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index 8590e07..4ec0b0d 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -27,10 +27,16 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
     PyRef<> iter(PyObject_GetIter(list));
     while(true) {
         PyObject *item = PyIter_Next(iter.py());
-        if(!item) break;
+        if(!item) {
+            if(PyErr_Occurred())
+                throw std::runtime_error("Failed to iterate"); // a py exception is active
+            break;
+        }
         PyRef<> itemref(item);
         const char *kname;
         PyObject *value;
+        if(!PyTuple_Check(item))
+            throw std::invalid_argument("lists must contain only tuples of name and value");
         if(!PyArg_ParseTuple(item, "sO", &kname, &value))
             throw std::runtime_error("list item is not a tuple?");
 
-- 
2.43.0


From 23006a80e4d050bd1d05abe78c8921a9dfab4192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:27 +0000
Subject: [PATCH 58/77] fix: changing the extra dict while it is being
 converted must not crash

---
 python/flame/modconfig.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index 4ec0b0d..20bff95 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -203,10 +203,12 @@ Config* PyGLPSParse2Config(PyObject *, PyObject *args, PyObject *kws)
     if(extra_defs==Py_None) {
         // no-op
     } else if(PyDict_Check(extra_defs)) {
-        PyObject *key, *value;
-        Py_ssize_t pos = 0;
+        // a copy, as conversion of a value may run python code which changes the dict
+        PyRef<> items(PyDict_Items(extra_defs));
 
-        while(PyDict_Next(extra_defs, &pos, &key, &value)) {
+        for(Py_ssize_t pos = 0; pos<PyList_GET_SIZE(items.py()); pos++) {
+            PyObject *key = PyTuple_GET_ITEM(PyList_GET_ITEM(items.py(), pos), 0),
+                     *value = PyTuple_GET_ITEM(PyList_GET_ITEM(items.py(), pos), 1);
             PyRef<> keyx(key, borrow());
             PyCString keystr(keyx);
 
-- 
2.43.0


From da49cf63180e1116d14c6e4580048d1556534571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:09 +0000
Subject: [PATCH 59/77] fix: MomentState without charge states must not have
 uninitialized moments

---
 src/moment.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/moment.cpp b/src/moment.cpp
index c860964..e857ce7 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -187,6 +187,8 @@ MomentState::MomentState(const Config& c)
         moment1[0].resize(maxsize, maxsize);
         transmat[0].resize(maxsize, maxsize);
 
+        moment0[0] = boost::numeric::ublas::zero_vector<double>(maxsize);
+        moment1[0] = boost::numeric::ublas::identity_matrix<double>(maxsize);
         load_storage(moment0[0].data(), c, vectorname, false);
         load_storage(moment1[0].data(), c, matrixname, false);
         transmat[0] = boost::numeric::ublas::identity_matrix<double>(maxsize);
-- 
2.43.0


From 4eac1abf47502cdb8965ae7cb038ee5fdb42eb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:56 +0000
Subject: [PATCH 60/77] fix: elements of a python configuration must inherit
 globals listed after them

---
 python/flame/modconfig.cpp | 50 ++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index 20bff95..aa8e836 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -24,6 +24,11 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
     if(depth>3)
         throw std::runtime_error("too deep for Dict2Config");
 
+    // lists are converted after everything else, and "elements" last, as the
+    // scopes they contain inherit this one regardless of the order of items.
+    typedef std::list<std::pair<std::string, PyRef<> > > nested_t;
+    nested_t nested;
+
     PyRef<> iter(PyObject_GetIter(list));
     while(true) {
         PyObject *item = PyIter_Next(iter.py());
@@ -61,33 +66,42 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
             ret.set<std::string>(kname, val);
 
         } else if(PySequence_Check(value)) { // list of dict
-            Py_ssize_t N = PySequence_Size(value);
+            std::string name(kname);
+            nested.insert(name=="elements" ? nested.end() : nested.begin(),
+                          std::make_pair(name, PyRef<>(value, borrow())));
+
+        } else {
+            PyTypeObject *valuetype = Py_TYPE(value);
+            throw std::invalid_argument(SB()<<"Must be a dict, not "<<valuetype->tp_name);
+        }
+    }
 
-            Config::vector_t output;
-            output.reserve(N);
+    const Config scope(ret);
 
-            for(Py_ssize_t i=0; i<N; i++) {
-                PyRef<> elem(PySequence_GetItem(value, i));
+    for(nested_t::iterator it=nested.begin(), end=nested.end(); it!=end; ++it) {
+        PyObject *value = it->second.py();
+        Py_ssize_t N = PySequence_Size(value);
 
-                if(PyDict_Check(elem.py())) {
-                    elem.reset(PyMapping_Items(elem.py()));
-                }
-                if(!PyList_Check(elem.py())) {
-                    PyTypeObject *valuetype = Py_TYPE(elem.py());
-                    throw std::invalid_argument(SB()<<"lists must contain only dict or list of tuples, not "<<valuetype->tp_name);
-                }
+        Config::vector_t output;
+        output.reserve(N);
 
-                output.push_back(ret.new_scope());
+        for(Py_ssize_t i=0; i<N; i++) {
+            PyRef<> elem(PySequence_GetItem(value, i));
 
-                List2Config(output.back(), elem.py(), depth+1); // inheirt parent scope
+            if(PyDict_Check(elem.py())) {
+                elem.reset(PyMapping_Items(elem.py()));
+            }
+            if(!PyList_Check(elem.py())) {
+                PyTypeObject *valuetype = Py_TYPE(elem.py());
+                throw std::invalid_argument(SB()<<"lists must contain only dict or list of tuples, not "<<valuetype->tp_name);
             }
 
-            ret.set<Config::vector_t>(kname, output);
+            output.push_back((it->first=="elements" ? ret : scope).new_scope());
 
-        } else {
-            PyTypeObject *valuetype = Py_TYPE(value);
-            throw std::invalid_argument(SB()<<"Must be a dict, not "<<valuetype->tp_name);
+            List2Config(output.back(), elem.py(), depth+1); // inheirt parent scope
         }
+
+        ret.set<Config::vector_t>(it->first, output);
     }
 }
 
-- 
2.43.0


From c112045156a04b24f60ad30516e08056d40e9a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:10 +0000
Subject: [PATCH 61/77] fix: python strings containing a zero byte must not be
 cut short

---
 python/flame/modconfig.cpp | 17 ++++++++++-------
 python/flame/pyflame.h     |  2 ++
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index aa8e836..4d14f76 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -63,7 +63,7 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
             PyCString sval(valref);
             const char *val = sval.c_str();
 
-            ret.set<std::string>(kname, val);
+            ret.set<std::string>(kname, std::string(val, sval.size()));
 
         } else if(PySequence_Check(value)) { // list of dict
             std::string name(kname);
@@ -124,7 +124,7 @@ struct confval : public boost::static_visitor<PyRef<> >
 
     PyRef<> operator()(const std::string& v) const
     {
-        return PyRef<>(PyString_FromString(v.c_str()));
+        return PyRef<>(PyString_FromStringAndSize(v.c_str(), v.size()));
     }
 
     PyRef<> operator()(const std::vector<double>& v) const
@@ -159,7 +159,7 @@ PyObject* conf2dict(const Config *conf)
         it!=end; ++it)
     {
         PyRef<> val(boost::apply_visitor(confval(), it->second));
-        PyRef<> tup(Py_BuildValue("sO", it->first.c_str(), val.py()));
+        PyRef<> tup(Py_BuildValue("s#O", it->first.c_str(), (Py_ssize_t)it->first.size(), val.py()));
         if(PyList_Append(list.py(), tup.py()))
             throw std::runtime_error("Failed to insert into dictionary from conf2dict");
     }
@@ -196,7 +196,8 @@ PyObject* PyGLPSPrint(PyObject *, PyObject *args)
         std::ostringstream strm;
         strm.precision(17); // enough to read back the same numbers
         GLPSPrint(strm, conf);
-        return PyString_FromString(strm.str().c_str());
+        const std::string text(strm.str());
+        return PyString_FromStringAndSize(text.c_str(), text.size());
     }CATCH()
 }
 
@@ -236,14 +237,16 @@ Config* PyGLPSParse2Config(PyObject *, PyObject *args, PyObject *kws)
                 PyRef<> valuex(value, borrow());
                 PyCString valstr(valuex);
 
-                curval = valstr.c_str();
+                const char *val = valstr.c_str();
+                curval = std::string(val, valstr.size());
 
             } else {
                 PyErr_SetString(PyExc_ValueError, "extra {} can contain only numbers or strings");
                 return NULL;
             }
 
-            parser.setVar(keystr.c_str(), curval);
+            const char *name = keystr.c_str();
+            parser.setVar(std::string(name, keystr.size()), curval);
         }
     } else {
         PyErr_SetString(PyExc_ValueError, "'extra' must be a dict");
@@ -279,7 +282,7 @@ Config* PyGLPSParse2Config(PyObject *, PyObject *args, PyObject *kws)
         PyCString buf;
         const char *cbuf = buf.c_str(conf);
 
-        C.reset(parser.parse_byte(cbuf, strlen(cbuf), path));
+        C.reset(parser.parse_byte(cbuf, buf.size(), path));
 #endif
 
     } else {
diff --git a/python/flame/pyflame.h b/python/flame/pyflame.h
index fa864ce..294d92c 100644
--- a/python/flame/pyflame.h
+++ b/python/flame/pyflame.h
@@ -36,6 +36,7 @@ int registerModState(PyObject *mod);
 #define PyInt_AsLong PyLong_AsLong
 #define PyString_Check PyUnicode_Check
 #define PyString_FromString PyUnicode_FromString
+#define PyString_FromStringAndSize PyUnicode_FromStringAndSize
 #define MODINIT_RET(VAL) return (VAL)
 
 #else
@@ -156,6 +157,7 @@ struct PyCString
         return ret;
 
     }
+    size_t size() const { return PyBytes_Size(pystr.py()); }
 private:
     PyCString(const PyCString&);
     PyCString& operator=(const PyCString&);
-- 
2.43.0


From b1ad7f23a97efd942c1d5f5ac54ba640689832ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:26 +0000
Subject: [PATCH 62/77] fix: python files in the current directory, or without
 a name, must be parsed relative to PWD

---
 python/flame/modconfig.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index 4d14f76..dedf815 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -260,11 +260,17 @@ Config* PyGLPSParse2Config(PyObject *, PyObject *args, PyObject *kws)
 
     if(PyObject_HasAttrString(conf, "read")) { // file-like
         PyCString pyname;
+        PyRef<> pydir;
 
         if(!path && PyObject_HasAttrString(conf, "name")) {
             PyRef<> name(PyObject_GetAttrString(conf, "name"));
-            PyRef<> dir(pydirname(name.py()));
-            path = pyname.c_str(dir.py());
+            // unnamed files, eg. from tempfile.TemporaryFile(), have a number or None.
+            if(PyUnicode_Check(name.py()) || PyBytes_Check(name.py())) {
+                pydir.reset(pydirname(name.py()));
+                path = PyBytes_Check(pydir.py()) ? PyBytes_AsString(pydir.py()) : pyname.c_str(pydir.py());
+                if(!*path)
+                    path = NULL; // relative to PWD
+            }
         }
 
         PyRef<> pybytes(PyObject_CallMethod(conf, "read", ""));
-- 
2.43.0


From b852b7430503ae190a94d5a65606f89da19d4d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:26 +0000
Subject: [PATCH 63/77] fix: Machine.conf() must convert nested configurations
 at every depth

---
 python/flame/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/flame/__init__.py b/python/flame/__init__.py
index 8a44889..a2eb0fe 100644
--- a/python/flame/__init__.py
+++ b/python/flame/__init__.py
@@ -13,7 +13,7 @@ def _list2odict(L):
     for i in range(len(L)):
         K,V = L[i]
         if isinstance(V, list):
-            L[i] = (K,list(map(OrderedDict, V)))
+            L[i] = (K,list(map(_list2odict, V)))
     return OrderedDict(L)
 
 class GLPSParser(object):
-- 
2.43.0


From 89500c1868907fef04d8fc5c0581da66e1e21438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:54 +0000
Subject: [PATCH 64/77] fix: parse_file("-") must parse stdin as documented

---
 src/config.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/config.cpp b/src/config.cpp
index 5d5893e..7f33b2f 100644
--- a/src/config.cpp
+++ b/src/config.cpp
@@ -364,15 +364,16 @@ GLPSParser::setPrinter(std::ostream* strm)
 Config*
 GLPSParser::parse_file(const char *fname, const bool have_lattice)
 {
+    FILE *fp;
+    bool closeme = fname!=NULL && strcmp(fname,"-")!=0;
+
     boost::filesystem::path fpath;
-    if(fname) {
+    if(closeme) {
         fpath = boost::filesystem::canonical(fname).parent_path();
     } else {
         fpath = boost::filesystem::current_path();
     }
 
-    FILE *fp;
-    bool closeme = fname!=NULL && strcmp(fname,"-")!=0;
     if(closeme)
         fp = fopen(fname, "r");
     else
-- 
2.43.0


From c8e2cd70e5fdca840cd1769bd16e4f738ac3d38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:28 +0000
Subject: [PATCH 65/77] fix: the command line tool must report output which
 can't be written

---
 tools/cli.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/cli.cpp b/tools/cli.cpp
index 2927a85..207d8ba 100644
--- a/tools/cli.cpp
+++ b/tools/cli.cpp
@@ -276,6 +276,8 @@ struct StreamObserver : public Observer
                 if(cmd.substr(0,5)=="file=") {
                     owned_strm.reset(new std::ofstream(cmd.substr(5).c_str()));
                     strm = owned_strm.get();
+                    if(!*strm)
+                        throw std::runtime_error("Failed to open output file '"+cmd.substr(5)+"'");
                 } else if(cmd=="verbose") {
                     detail=1;
                 } else if(cmd.substr(0,8)=="verbose=") {
@@ -293,7 +295,8 @@ struct StreamObserver : public Observer
 
         virtual void after_sim(Machine&)
         {
-            strm->flush();
+            if(!strm->flush())
+                throw std::runtime_error("Failed to write output");
         }
     };
 };
-- 
2.43.0


From 2eb16dce32cbd213dfe9463378eacd92e9391d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:42 +0000
Subject: [PATCH 66/77] fix: '-F utest' must not print other attributes in
 place of those it does not know

---
 tools/cli.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/tools/cli.cpp b/tools/cli.cpp
index 207d8ba..e553aee 100644
--- a/tools/cli.cpp
+++ b/tools/cli.cpp
@@ -124,7 +124,9 @@ struct UnitTestObserver : public Observer
     typedef std::vector<unsigned> interested_indicies_t;
     interested_indicies_t interested_indicies;
 
-    UnitTestObserver(const interested_t& I) :interested(I) {}
+    bool have_indicies;
+
+    UnitTestObserver(const interested_t& I) :interested(I), have_indicies(false) {}
     virtual ~UnitTestObserver() {}
 
     void lookup(StateBase *S) {
@@ -149,15 +151,16 @@ struct UnitTestObserver : public Observer
             L[info.name] = idx-1;
         }
 
-        interested_indicies.resize(interested->size());
-
         interested_t::element_type::const_iterator it = interested->begin();
-        for(size_t i=0; i<interested_indicies.size(); i++, ++it) {
+        for(; it!=interested->end(); ++it) {
             lookup_t::const_iterator Lit = L.find(*it);
             if(Lit!=L.end()) {
-                interested_indicies[i] = Lit->second;
+                interested_indicies.push_back(Lit->second);
+            } else {
+                std::cerr<<"Warning: -F utest includes unknown or unsupported attribute "<<*it<<"\n";
             }
         }
+        have_indicies = true;
     }
 
     virtual void view(const ElementVoid *elem, const StateBase *state)
@@ -166,7 +169,7 @@ struct UnitTestObserver : public Observer
         // we won't actually modify the state
         StateBase *S = const_cast<StateBase*>(state);
 
-        if(interested_indicies.size()!=interested->size())
+        if(!have_indicies)
             lookup(S);
 
         std::cout<<"    def test_"<<elem->type_name()<<"(self):\n"
@@ -245,6 +248,11 @@ struct UnitTestObserver : public Observer
         {
             return new UnitTestObserver(interested);
         }
+        virtual void after_sim(Machine&)
+        {
+            if(!std::cout.flush())
+                throw std::runtime_error("Failed to write output");
+        }
     };
 };
 
-- 
2.43.0


From a9ccd262a7188759f0da8398c719831bbdf7fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:42 +0000
Subject: [PATCH 67/77] fix: help of the command line tool must describe -D as
 implemented

---
 tools/cli.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/cli.cpp b/tools/cli.cpp
index e553aee..f7c290f 100644
--- a/tools/cli.cpp
+++ b/tools/cli.cpp
@@ -103,7 +103,7 @@ void getargs(int argc, char *argv[], po::variables_map& args)
                    "Definitions:\n\n"
                    " Variable defintions made by arguments must specify a name, type, and value\n"
                    " The type may be: 'str'' or 'double', which may be abbreviated as 'S' or 'D'.\n"
-                   " Definitions are overwritten by those in the lattice file.\n"
+                   " Definitions are made before the lattice file is read, which may not repeat them.\n"
                    ;
         exit(1);
     }
-- 
2.43.0


From cc9e892bdc65c6d9465e6ace35b23900573c6b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:07 +0000
Subject: [PATCH 68/77] fix: number IOC element instances by element name, not
 by prefix collision

---
 python/flame/ioc.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/flame/ioc.py b/python/flame/ioc.py
index 515973a..95e2cc6 100644
--- a/python/flame/ioc.py
+++ b/python/flame/ioc.py
@@ -30,6 +30,7 @@ class Generator(object):
 
         stype = self._D['sim_type']
         outnames = set()
+        ninst = defaultdict(int) # element name -> # of instances seen
 
         nmarkers = 0
 
@@ -41,6 +42,13 @@ class Generator(object):
             ename = elem['name']
             rname = self._M(elem)
 
+            # instance number depends on the element name only,
+            # not on how the record name prefix is made unique.
+            inst = ninst[ename]
+            ninst[ename] += 1
+            if inst:
+                ename = '%s[%d]'%(ename,inst)
+
             if etype=='marker':
                 nmarkers += 1
 
@@ -49,7 +57,6 @@ class Generator(object):
                 while '%s%d'%(rname,N) in outnames:
                     N += 1
                 rname = '%s%d'%(rname,N)
-                ename = '%s[%d]'%(ename,N)
             outnames.add(rname)
 
             _log.debug("Inspect %(name)s : %(type)s"%elem)
-- 
2.43.0


From b880c5566c10fcbb29e7d60761086d5a93023195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:11 +0000
Subject: [PATCH 69/77] fix: drop an element's cached results when filling the
 cache runs out of memory

---
 src/flame/rf_cavity.h | 20 ++++++++++----------
 src/moment.cpp        | 39 ++++++++++++++++++++-------------------
 2 files changed, 30 insertions(+), 29 deletions(-)

diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 3377560..6c2d9ab 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -178,12 +178,12 @@ struct ElementRFCavity : public MomentElementBase
         ST.recalc();
 
         if(!check_cache(ST) && !ST.retreat) {
-            last_ref_in = ST.ref;
-            last_real_in = ST.real;
-            resize_cache(ST);
             // need to re-calculate energy dependent terms
-
             try {
+                last_ref_in = ST.ref;
+                last_real_in = ST.real;
+                resize_cache(ST);
+
                 std::string newtype = conf().get<std::string>("cavtype");
                 if (CavType != newtype){
                     lattice.clear();
@@ -203,15 +203,15 @@ struct ElementRFCavity : public MomentElementBase
 
                 for(size_t i=0; i<last_real_in.size(); i++)
                     get_misalign(ST, ST.real[i], misalign[i], misalign_inv[i]);
+
+                ST.recalc();
+
+                last_ref_out = ST.ref;
+                last_real_out = ST.real;
             } catch(...) {
-                clear_cache(); // 'transfer' doesn't match last_*_in
+                clear_cache(); // 'transfer' and last_*_out don't match last_*_in
                 throw;
             }
-
-            ST.recalc();
-
-            last_ref_out = ST.ref;
-            last_real_out = ST.real;
         } else if(ST.retreat){
             if (EmitGrowth)
                 throw std::runtime_error(SB()<<
diff --git a/src/moment.cpp b/src/moment.cpp
index e857ce7..11c54cb 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -667,21 +667,21 @@ void MomentElementBase::advance(StateBase& s)
 
     if(!check_cache(ST)){
         // need to re-calculate energy dependent terms
-        last_ref_in = ST.ref;
-        last_real_in = ST.real;
-        resize_cache(ST);
-
         try {
+            last_ref_in = ST.ref;
+            last_real_in = ST.real;
+            resize_cache(ST);
+
             recompute_matrix(ST); // updates transfer and last_Kenergy_out
+
+            ST.recalc();
+
+            last_ref_out = ST.ref;
+            last_real_out = ST.real;
         } catch(...) {
-            clear_cache(); // 'transfer' doesn't match last_*_in
+            clear_cache(); // 'transfer' and last_*_out don't match last_*_in
             throw;
         }
-
-        ST.recalc();
-
-        last_ref_out = ST.ref;
-        last_real_out = ST.real;
     } else {
         ST.ref = last_ref_out;
         assert(last_real_out.size()==ST.real.size()); // should be true if check_cache() -> true
@@ -956,20 +956,21 @@ struct ElementSBend : public MomentElementBase
 
         if(!check_cache(ST)) {
             // need to re-calculate energy dependent terms
-            last_ref_in = ST.ref;
-            last_real_in = ST.real;
-            resize_cache(ST);
-
             try {
+                last_ref_in = ST.ref;
+                last_real_in = ST.real;
+                resize_cache(ST);
+
                 recompute_matrix(ST); // updates transfer and last_Kenergy_out
+
+                ST.recalc();
+
+                last_ref_out = ST.ref;
+                last_real_out = ST.real;
             } catch(...) {
-                clear_cache(); // 'transfer' doesn't match last_*_in
+                clear_cache(); // 'transfer' and last_*_out don't match last_*_in
                 throw;
             }
-
-            ST.recalc();
-            last_ref_out = ST.ref;
-            last_real_out = ST.real;
         } else {
             ST.ref = last_ref_out;
             assert(last_real_out.size()==ST.real.size()); // should be true if check_cache() -> true
-- 
2.43.0


From dcb4adb26b549156164a77ccffefd2127de98603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:11 +0000
Subject: [PATCH 70/77] fix: setting a parameter leaves no zero behind when it
 runs out of memory

---
 src/config.cpp     | 4 ++--
 src/flame/config.h | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/config.cpp b/src/config.cpp
index 7f33b2f..e2da3ae 100644
--- a/src/config.cpp
+++ b/src/config.cpp
@@ -68,8 +68,8 @@ Config::getAny(const std::string& name) const
 void
 Config::setAny(const std::string& name, const value_t& val)
 {
-    _cow();
-    (*values)[name] = val;
+    value_t temp(val); // may fail, before anything is changed
+    swapAny(name, temp);
 }
 
 void
diff --git a/src/flame/config.h b/src/flame/config.h
index ec59d4d..645eb12 100644
--- a/src/flame/config.h
+++ b/src/flame/config.h
@@ -175,8 +175,7 @@ public:
     void set(const std::string& name,
              typename boost::call_traits<typename detail::is_config_value<T>::type>::param_type val)
     {
-        _cow();
-        (*values)[name] = val;
+        setAny(name, value_t(val));
     }
 
     /** Exchange a single parameter typed
-- 
2.43.0


From 49b04f8d209e764bbd8c944de0bb515bacf9dc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:11 +0000
Subject: [PATCH 71/77] fix: a reconfiguration which runs out of memory keeps
 name lookup consistent

---
 src/base.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/base.cpp b/src/base.cpp
index 8e0aaa6..a5748d1 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -73,9 +73,9 @@ void ElementVoid::show(std::ostream& strm, int level) const
 
 void ElementVoid::assign(const ElementVoid *other)
 {
+    *const_cast<std::string*>(&name) = other->name; // may fail, before anything is changed
     p_conf = other->p_conf;
     length = other->length;
-    *const_cast<std::string*>(&name) = other->name;
     *const_cast<size_t*>(&index) = other->index;
 }
 
@@ -240,8 +240,9 @@ void Machine::reconfigure(size_t idx, const Config& c)
     try {
         builder->rebuild(E, c, idx);
     } catch(...) {
+        // which depends on how far the failed assignment came
         if(rename)
-            p_lookup.erase(newkey);
+            p_lookup.erase(E->name==oldkey.name ? newkey : oldkey);
         throw;
     }
     if(rename)
-- 
2.43.0


From eabe0de9ce9649b7d87bd932da5131bfdfb87904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:29 +0000
Subject: [PATCH 72/77] fix: running out of memory while reading a flag is not
 the flag's default

---
 src/moment.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/moment.cpp b/src/moment.cpp
index 11c54cb..afc1dd8 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -638,9 +638,13 @@ unsigned MomentElementBase::get_flag(const Config& c, const std::string& name, c
 
     try {
         check_value = boost::lexical_cast<double>(c.get<std::string>(name));
+    }catch (std::bad_alloc&){
+        throw; // not the same as a missing parameter
     }catch (std::exception&){
         try {
             check_value = c.get<double>(name);
+        }catch (std::bad_alloc&){
+            throw;
         }catch (std::exception&){
             check_value = boost::lexical_cast<double>(def_value);
         }
-- 
2.43.0


From cb6e486ab0dbf073ca888b8df7072fba4cfcb5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:29 +0000
Subject: [PATCH 73/77] fix: a reconfiguration which runs out of memory keeps
 the element's index

---
 src/flame/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flame/base.h b/src/flame/base.h
index 481fd20..6961dcf 100644
--- a/src/flame/base.h
+++ b/src/flame/base.h
@@ -420,8 +420,8 @@ private:
             Element *m = dynamic_cast<Element*>(o);
             if(!m)
                 throw std::runtime_error("reconfigure() can't change element type");
+            N->index = idx; // assign() copies index number
             m->assign(N.get());
-            m->index = idx; // copy index number
         }
     };
 
-- 
2.43.0


From 014427d79da257f97b269aa52456c91065eb91ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:01 +0000
Subject: [PATCH 74/77] fix: a reconfiguration which runs out of memory leaves
 the element as it was

---
 src/flame/linear.h    |  2 +-
 src/flame/rf_cavity.h | 33 +++++++++++++++++++++------------
 src/moment.cpp        |  2 +-
 3 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/flame/linear.h b/src/flame/linear.h
index a4d9414..86e3a0c 100644
--- a/src/flame/linear.h
+++ b/src/flame/linear.h
@@ -47,8 +47,8 @@ struct LinearElementBase : public ElementVoid
     virtual void assign(const ElementVoid *other)
     {
         const LinearElementBase *O = static_cast<const LinearElementBase*>(other);
+        ElementVoid::assign(other); // may fail, before anything is changed
         transfer = O->transfer;
-        ElementVoid::assign(other);
     }
 
 private:
diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 6c2d9ab..46712c2 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -136,25 +136,34 @@ struct ElementRFCavity : public MomentElementBase
     virtual ~ElementRFCavity() {}
 
     virtual void assign(const ElementVoid *other) {
-        base_t::assign(other);
         const self_t* O=static_cast<const self_t*>(other);
+        // copies, which may fail, are made before anything is changed
+        std::vector<RawParams> new_lattice(O->lattice);
+        numeric_table new_mlptable(O->mlptable), new_CavData(O->CavData);
+        std::string new_CavType(O->CavType), new_DataPath(O->DataPath), new_DataFile(O->DataFile);
+        std::vector<double> new_SynAccTab(O->SynAccTab), new_SynComplex(O->SynComplex),
+                            new_EkLim(O->EkLim), new_NrLim(O->NrLim);
+        std::vector<CavTLMLineType> new_CavTLMLineTab(O->CavTLMLineTab);
+        base_t::assign(other);
         // *all* member variables must be assigned here or reconfigure() will result in inconsistancy
-        lattice       = O->lattice;
-        mlptable      = O->mlptable;
-        CavData       = O->CavData;
-        CavType       = O->CavType;
-        DataPath      = O->DataPath;
-        DataFile      = O->DataFile;
-        SynAccTab     = O->SynAccTab;
+        lattice.swap(new_lattice);
+        mlptable.colnames.swap(new_mlptable.colnames);
+        mlptable.table.swap(new_mlptable.table);
+        CavData.colnames.swap(new_CavData.colnames);
+        CavData.table.swap(new_CavData.table);
+        CavType.swap(new_CavType);
+        DataPath.swap(new_DataPath);
+        DataFile.swap(new_DataFile);
+        SynAccTab.swap(new_SynAccTab);
         have_RefNrm   = O->have_RefNrm;
         have_SynComplex = O->have_SynComplex;
         have_EkLim    = O->have_EkLim;
         have_NrLim    = O->have_NrLim;
         RefNrm        = O->RefNrm;
-        SynComplex    = O->SynComplex;
-        EkLim         = O->EkLim;
-        NrLim         = O->NrLim;
-        CavTLMLineTab = O->CavTLMLineTab;
+        SynComplex.swap(new_SynComplex);
+        EkLim.swap(new_EkLim);
+        NrLim.swap(new_NrLim);
+        CavTLMLineTab.swap(new_CavTLMLineTab);
         fRF           = O->fRF;
         IonFys        = O->IonFys;
         phi_ref       = O->phi_ref;
diff --git a/src/moment.cpp b/src/moment.cpp
index afc1dd8..8b7d083 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -565,6 +565,7 @@ MomentElementBase::~MomentElementBase() {}
 void MomentElementBase::assign(const ElementVoid *other)
 {
     const MomentElementBase *O = static_cast<const MomentElementBase*>(other);
+    ElementVoid::assign(other);
     last_real_in = O->last_real_in;
     last_real_out= O->last_real_out;
     last_ref_in  = O->last_ref_in;
@@ -578,7 +579,6 @@ void MomentElementBase::assign(const ElementVoid *other)
     yaw   = O->yaw;
     roll  = O->roll;
     skipcache = O->skipcache;
-    ElementVoid::assign(other);
 }
 
 void MomentElementBase::show(std::ostream& strm, int level) const
-- 
2.43.0


From baea4a54a8bcef3f50c37119ec5a829d90a70d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:15 +0000
Subject: [PATCH 75/77] fix: report an orbit record whose array can't hold
 doubles instead of writing beyond it

---
 vaccel/flameorbit.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vaccel/flameorbit.cpp b/vaccel/flameorbit.cpp
index 5619cfc..f00791d 100644
--- a/vaccel/flameorbit.cpp
+++ b/vaccel/flameorbit.cpp
@@ -101,7 +101,10 @@ long orbit_init_common(dbCommon *prec, const char *link)
 static
 long orbit_init_wf(waveformRecord *prec)
 {
-    assert(prec->ftvl==menuFtypeDOUBLE);
+    if(prec->ftvl!=menuFtypeDOUBLE) {
+        fprintf(stderr, "%s: init error: FTVL must be DOUBLE\n", prec->name);
+        return -1;
+    }
     return orbit_init_common((dbCommon*)prec, prec->inp.value.instio.string);
 }
 
-- 
2.43.0


From be76892e193400bf68840306d7e91b5a03133225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 76/77] fix: running out of memory must not lose the directory
 of a python file

---
 python/flame/modconfig.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index dedf815..99b50d1 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -107,6 +107,18 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
 
 namespace {
 
+// Like PyObject_HasAttrString(), but errors other than a missing attribute aren't lost
+bool pyhasattr(PyObject *obj, const char *name)
+{
+    PyRef<> attr;
+    if(attr.reset(PyObject_GetAttrString(obj, name), PyRef<>::allow_null()))
+        return true;
+    if(!PyErr_ExceptionMatches(PyExc_AttributeError))
+        throw std::runtime_error("Failed to get attribute"); // a py exception is active
+    PyErr_Clear();
+    return false;
+}
+
 PyObject* pydirname(PyObject *obj)
 {
     if(!obj) return NULL;
@@ -258,11 +270,11 @@ Config* PyGLPSParse2Config(PyObject *, PyObject *args, PyObject *kws)
 
     PyRef<> listref;
 
-    if(PyObject_HasAttrString(conf, "read")) { // file-like
+    if(pyhasattr(conf, "read")) { // file-like
         PyCString pyname;
         PyRef<> pydir;
 
-        if(!path && PyObject_HasAttrString(conf, "name")) {
+        if(!path && pyhasattr(conf, "name")) {
             PyRef<> name(PyObject_GetAttrString(conf, "name"));
             // unnamed files, eg. from tempfile.TemporaryFile(), have a number or None.
             if(PyUnicode_Check(name.py()) || PyBytes_Check(name.py())) {
-- 
2.43.0


From 84986d7648bdd8a86e2967836081d7cc176520cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 77/77] fix: an observed index which could not be allocated
 must be reported

---
 python/flame/modmachine.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index 16937b1..ecbdedc 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -130,9 +130,10 @@ struct PyStoreObserver : public Observer
     virtual void view(const ElementVoid* elem, const StateBase* state)
     {
         PyRef<> tuple(PyTuple_New(2));
+        PyRef<> index(PyInt_FromSize_t(elem->index));
         PyRef<> statecopy(wrapstate(state->clone()));
 
-        PyTuple_SET_ITEM(tuple.py(), 0, PyInt_FromSize_t(elem->index));
+        PyTuple_SET_ITEM(tuple.py(), 0, index.release());
         PyTuple_SET_ITEM(tuple.py(), 1, statecopy.release());
         if(PyList_Append(list.py(), tuple.py()))
             throw std::runtime_error(""); // a py exception is active
-- 
2.43.0

