From 498b30a4158f6c4205459d6985ae7920507f2bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:42 +0000
Subject: [PATCH 01/42] fix: native atomic updates return the value their own
 update produced

---
 ristra/atomics/src/atomics-macro-class.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ristra/atomics/src/atomics-macro-class.h b/ristra/atomics/src/atomics-macro-class.h
index 1a7394f..29748c7 100644
--- a/ristra/atomics/src/atomics-macro-class.h
+++ b/ristra/atomics/src/atomics-macro-class.h
@@ -33,9 +33,13 @@ public:
       // std::atomic<>'s fetch_add() etc. return the contained value BEFORE
       // the call, which is inconsistent with what we expect from "+=" etc.,
       // and with what we get from our other atomicity schemes (below). So,
-      // we split the call and the return.
-      atom.atomics_cpp(val,sync); // e.g. atom.fetch_add(val,sync)
-      return T(atom);
+      // we apply the operation to the returned value as well. (Re-reading
+      // atom would not do: another thread may have changed it by then.)
+      using ARG = typename std::conditional<
+         std::is_pointer<T>::value, std::ptrdiff_t, T
+      >::type;
+      T ret = atom.atomics_cpp(val,sync); // e.g. atom.fetch_add(val,sync)
+      return ret atomics_op ARG(val);     // e.g. ret += val
    }
    #endif
 
-- 
2.43.0


From 1551d3dc50b1925b431a204a73fdeb1e08bb20e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:13 +0000
Subject: [PATCH 02/42] fix: Tess16 uses its reference vertices

Tess16::ref_vert was an uninitialised member, shadowing the table defined as
a namespace global.
---
 ristra/elements/elements.cc | 2 +-
 ristra/elements/elements.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index 1b18817..496728f 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -2751,7 +2751,7 @@ void HexN::basis_partials (
 
 int  num_nodes = 16;
 
-real_t ref_vert[16][4] = // listed as {Xi, Eta, Mu, Tau}
+real_t Tess16::ref_vert[16][4] = // listed as {Xi, Eta, Mu, Tau}
    {
    // Interior cube bottom
    {-1.0, -1.0, -1.0, -1.0},//0
diff --git a/ristra/elements/elements.h b/ristra/elements/elements.h
index 85739d0..c5f6523 100644
--- a/ristra/elements/elements.h
+++ b/ristra/elements/elements.h
@@ -744,7 +744,7 @@ class Tess16: public Element4D {
    protected:
       int  num_nodes;
 
-      real_t ref_vert[16][4];  // listed as {Xi, Eta, Mu, Tau}
+      static real_t ref_vert[16][4];  // listed as {Xi, Eta, Mu, Tau}
 
 
 
-- 
2.43.0


From 78fcc3f64ea59810a2efdd3e1237552db57ec6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:13 +0000
Subject: [PATCH 03/42] fix: utils::split does not share its delimiter table
 between calls

The character table was a function static, rewritten by every call, so
concurrent calls split at each other's delimiters; delimiters outside ASCII
indexed it with a negative value.
---
 ristra/utils/string_utils.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ristra/utils/string_utils.h b/ristra/utils/string_utils.h
index 9ea2e6f..b9d0dd5 100644
--- a/ristra/utils/string_utils.h
+++ b/ristra/utils/string_utils.h
@@ -157,17 +157,18 @@ std::vector<std::string> split(
     using ccmask = cctype::mask;
     
     tokens_t(const std::vector<char> & delims) 
-      : cctype(get_table(delims)) {}
+      : cctype(get_table(delims), true) {}
 
     static ctype_base::mask const * get_table(
       const std::vector<char> & delims
     ) {
-      static const ccmask * const_rc = cctype::classic_table();
-      static ccmask rc[cctype::table_size];
+      // one table per instance, owned (and deleted) by the base class
+      const ccmask * const_rc = cctype::classic_table();
+      ccmask * rc = new ccmask[cctype::table_size];
       std::memcpy(rc, const_rc, cctype::table_size*sizeof(ccmask));
       for (const auto & d : delims) 
-        rc[d] = ctype_base::space;
-      return &rc[0];
+        rc[static_cast<unsigned char>(d)] = ctype_base::space;
+      return rc;
     }
   };
 
-- 
2.43.0


From cf950db244ed6e70b74e75fedd23a13582a516d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:46 +0000
Subject: [PATCH 04/42] fix: Lua_Func_Wrapper refers to the function it owns

Built from a reference it kept that reference instead of its own copy, which
dangles once the caller's object is gone.
---
 ristra/embedded/embed_lua.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index fc15b0b..23e3d0c 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -942,7 +942,7 @@ struct Lua_Func_Wrapper<std::function<Ret(Args...)>> {
 
   /**\brief Construct from reference to lua_result_t */
   explicit Lua_Func_Wrapper(lua_result_t & lf)
-    : plua_func_(std::make_shared<lua_result_t>(lf)), lua_func_(lf)
+    : plua_func_(std::make_shared<lua_result_t>(lf)), lua_func_(*plua_func_)
   {
   }
 
-- 
2.43.0


From 083310ff849f733fded418fb9929672d06c4f633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:21 +0000
Subject: [PATCH 05/42] fix: a lua_t whose state cannot be created does not
 close it

luaL_newstate returns null when out of memory; the deleter passed that to
lua_close, so the program crashed instead of seeing the exception.
---
 ristra/embedded/embed_lua.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 23e3d0c..abfe94d 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -404,7 +404,7 @@ public:
 
   /// \brief Default constructor.
   lua_base_t()
-    : state_( luaL_newstate(), [](lua_State * s) { lua_close(s); } )
+    : state_( luaL_newstate(), [](lua_State * s) { if (s) lua_close(s); } )
   {}
   
   /// \brief Copy constructor.
-- 
2.43.0


From c8889359f0cc50ced9c8d0b85abfc1341edf8a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:21 +0000
Subject: [PATCH 06/42] fix: Lua operations leave the stack as they found it

Failed calls, lookups, conversions and loads left values on the Lua stack,
where later operations took them for their own (a call without results
returned them) and where they accumulated; successful lookups emptied the
whole stack.
---
 ristra/embedded/embed_lua.h | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index abfe94d..325d94d 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -388,6 +388,21 @@ inline std::size_t lua_push(lua_State * s, const Array<double, N> & arr)
 }
 /// \}
 
+////////////////////////////////////////////////////////////////////////////////
+/// \brief Restores the height of the lua stack at the end of a scope.
+/// However an operation ends, it leaves nothing of its own on the stack and 
+/// does not remove what was there before.
+////////////////////////////////////////////////////////////////////////////////
+class lua_stack_guard_t {
+  lua_State * state_;
+  int top_;
+public:
+  explicit lua_stack_guard_t(lua_State * s) : state_(s), top_(lua_gettop(s)) {}
+  ~lua_stack_guard_t() { lua_settop(state_, top_); }
+  lua_stack_guard_t(const lua_stack_guard_t &) = delete;
+  lua_stack_guard_t & operator=(const lua_stack_guard_t &) = delete;
+};
+
 ////////////////////////////////////////////////////////////////////////////////
 /// \brief A base class for several of the implemented objects.
 /// This class mainly contains a lua state pointer which all derived
@@ -747,6 +762,7 @@ public:
   explicit operator T() const {
     if ( refs_.size() != 1 )
       THROW_RUNTIME_ERROR( "Expecting 1 result, stack has " << refs_.size() );
+    lua_stack_guard_t guard(state());
     push_last();
     return lua_value<T>::get(state());
   }
@@ -762,6 +778,7 @@ public:
       THROW_RUNTIME_ERROR( 
         "Expecting "<<N<<" results, stack has " << refs_.size() 
       );
+    lua_stack_guard_t guard(state());
     push_all();
     Tup tup;
     get_results<Tup,0,Args...>(tup);
@@ -802,6 +819,7 @@ public:
     // get the current stack position ( the function and arguments will get
     // deleted from the stack after the function call )
     auto pos0 = lua_gettop(s);
+    lua_stack_guard_t guard(s);
     // push the function onto the stack
     check_stack(1);
     push_last();
@@ -825,12 +843,14 @@ public:
       print_last_row();
       THROW_RUNTIME_ERROR("Problem calling \"" << name_ << "\".");
     }
-    // make sure the result is non nill
-    check_result(name_);
     // figure out how much the stack grew
     pos1 = lua_gettop(s);
     auto num_results = pos1 - pos0;
     assert( num_results >= 0 );
+    // make sure the result is non nill
+    if (num_results == 0)
+      THROW_RUNTIME_ERROR("\"" << name_ << "\" returned nothing.");
+    check_result(name_);
     // because there could be multiple results, get a reference to each one
     std::vector<lua_ref_t> ref_list;
     ref_list.reserve( num_results );
@@ -848,6 +868,7 @@ public:
   {
     auto s = state();
     auto new_name = name_+".[\""+key+"\"]";
+    lua_stack_guard_t guard(s);
     // push the table onto the stack
     push_last();
     // make sure we are accessing a table
@@ -859,9 +880,8 @@ public:
     lua_rawget(s, -2);
     // get the size of the object
     auto len = lua_rawlen(s, -1);
-    // get a reference to the result, and pop the table from the stack
+    // get a reference to the result
     auto ref = make_lua_ref(state_);
-    lua_pop(s, -1);
     // return the global object with a pointer to a location in the stack
     return { state_, new_name, std::move(ref), len };
   }
@@ -874,17 +894,18 @@ public:
   {
     auto s = state();
     auto new_name = name_+"["+std::to_string(n)+"]";
+    lua_stack_guard_t guard(s);
     // push the table onto the stack
     push_last();
     // make sure we are accessing a table
     check_table(name_);
-    // now get the table value, the key gets pushed from the stack
+    // now get the table value
+    check_stack(1);
     lua_rawgeti(s, -1, n);
     // get the size of the object
     auto len = lua_rawlen(s, -1);
-    // get a reference to the result, and pop the table from the stack
+    // get a reference to the result
     auto ref = make_lua_ref(state_);
-    lua_pop(s, -1);
     // return the global object with a pointer to a location in the stack
     return { state_, new_name, std::move(ref), len };
   }
@@ -979,6 +1000,7 @@ public:
   /// \return The lua error code.
   bool run_string( const std::string & script )
   {
+    lua_stack_guard_t guard(state());
     auto ret = luaL_dostring(state(),script.c_str());
     if ( ret ) {
       print_last_row();
@@ -991,6 +1013,7 @@ public:
   /// \param [in] file  The file to load.
   void loadfile( const std::string & file )
   {
+    lua_stack_guard_t guard(state());
     auto ret = luaL_dofile(state(),file.c_str());
     if ( ret ) {
       print_last_row();
-- 
2.43.0


From de607ea0622f0b6766774e201aa70b902808af45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:47 +0000
Subject: [PATCH 07/42] fix: looking up a Lua global is protected

With an __index metamethod on the global table that raises an error (strict
globals), reading an undefined global called Lua's panic function and ended
the program.
---
 ristra/embedded/embed_lua.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 325d94d..696ac31 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -1028,8 +1028,19 @@ public:
   lua_result_t operator[]( const std::string & key ) const &
   {
     auto s = state();
-    // the function name
-    lua_getglobal(s, key.c_str());
+    lua_stack_guard_t guard(s);
+    if ( !lua_checkstack(s, 2) )
+      THROW_RUNTIME_ERROR("Cannot grow stack to access \"" << key << "\".");
+    // the lookup may run a metamethod of the global table, so protect it
+    lua_pushcfunction(s, [](lua_State * l) -> int {
+      lua_getglobal(l, lua_tostring(l, 1));
+      return 1;
+    });
+    lua_pushstring(s, key.c_str());
+    if ( lua_pcall(s, 1, 1, 0) ) {
+      print_last_row();
+      THROW_RUNTIME_ERROR("Cannot access \"" << key << "\".");
+    }
     // get the size of the object
     auto len = lua_rawlen(s, -1);
     // return the global object with a pointer to a location in the stack
-- 
2.43.0


From 9a938a366fb4ba75f1275529c9be09b590dd8216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:27 +0000
Subject: [PATCH 08/42] fix: converting a Lua table to a matrix checks each row

A row that is not a table was indexed all the same and crashed.
---
 ristra/embedded/embed_lua.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 696ac31..54ce80e 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -272,6 +272,10 @@ struct lua_value< Matrix<T,M,N> >
     Matrix<T,M,N> res;
     for ( int i=1; i<=M; ++i ) {
       lua_rawgeti(s, -1, i);  // push t[i]
+      if ( !lua_istable(s, -1) )
+        THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
+          lua_typename(s, lua_type(s, -1)) << "\" to a row of a multiarray."
+        );
       for (int j=1; j<=N; ++j) {
         lua_rawgeti(s, -1, j); // push t[j]
         res(i-1,j-1) = lua_value<T>::get(s);
-- 
2.43.0


From 35aaae375cfa3118b4f6ea902881a9fdbfa9c40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:53 +0000
Subject: [PATCH 09/42] fix: init_value_t::valid() compiles for callable types

get_value returns callable types by value, so binding the result to a
non-const reference rejected every init_value_t<std::function<...>>.
---
 ristra/initialization/init_value.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/initialization/init_value.h b/ristra/initialization/init_value.h
index c6b95fd..3bb1a2c 100644
--- a/ristra/initialization/init_value.h
+++ b/ristra/initialization/init_value.h
@@ -111,7 +111,7 @@ class init_value_t
       return false;
     }
     input_engine ie;
-    T & t(ie.template get_value<T>(full_name()));
+    get_return_t t(ie.template get_value<T>(full_name()));
     bool valid = m_valid(t);
     m_status = valid ? status_t::valid : status_t::invalid;
     return valid;
-- 
2.43.0


From 98ae78b7a5cf90ead7f139cd0ba5a85d1ea6568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:13 +0000
Subject: [PATCH 10/42] fix: inputs the Lua source has no key for fall back to
 the hard-coded source

lua_source_t::get_value threw for a key that is not associated with any
table, so one such target made resolve_inputs throw instead of trying the
hard-coded source, which is documented to supply the default.
---
 ristra/initialization/input_source.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ristra/initialization/input_source.h b/ristra/initialization/input_source.h
index e4be871..aebf43d 100644
--- a/ristra/initialization/input_source.h
+++ b/ristra/initialization/input_source.h
@@ -272,6 +272,10 @@ class lua_source_t : public input_source<lua_source_t>
   struct value_getter {
     bool get_value(str_cr_t k, T & t, lua_source_t & ls)
     {
+      // a key without any table is not in this source
+      if (0 == ls.m_table_map.count(k)) {
+        return false;
+      }
       // check if there is a Lua key distinct from k
       str_cr_t l_key(1 == ls.m_lua_key.count(k) ? ls.m_lua_key[k] : k);
       bool found = true;
@@ -381,6 +385,10 @@ template <>
 struct lua_source_t::value_getter<embedded::lua_result_uptr_t> {
   bool get_value(str_cr_t k, embedded::lua_result_uptr_t & t, lua_source_t & ls)
   {
+    // a key without any table is not in this source
+    if (0 == ls.m_table_map.count(k)) {
+      return false;
+    }
     // check if there is a Lua key distinct from k
     str_cr_t l_key(1 == ls.m_lua_key.count(k) ? ls.m_lua_key[k] : k);
     // now recover the table to look in
-- 
2.43.0


From 45378c7dd3cc736c2404e37f5bb5a173273229d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:13 +0000
Subject: [PATCH 11/42] fix: lua_source_t rethrows the exception it caught

'throw x' copied the caught exception as a plain std::exception, losing its
type and message.
---
 ristra/initialization/input_source.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ristra/initialization/input_source.h b/ristra/initialization/input_source.h
index aebf43d..5d4e867 100644
--- a/ristra/initialization/input_source.h
+++ b/ristra/initialization/input_source.h
@@ -257,12 +257,12 @@ class lua_source_t : public input_source<lua_source_t>
       }  catch (std::exception & x) {
         printf("%s:%i Failed to find the table '%s' for the key '%s'\n",
           __PRETTY_FUNCTION__, __LINE__, from_name.c_str(),key.c_str());
-        throw x;
+        throw;
       }
     } catch (std::exception & x) {
       printf("%s:%i Failed to find any table associated with key '%s'\n",
         __PRETTY_FUNCTION__, __LINE__, key.c_str());
-      throw x;
+      throw;
     }
     return sz;
   } // get_size
@@ -295,12 +295,12 @@ class lua_source_t : public input_source<lua_source_t>
         } catch (std::exception & x) {
           printf("%s:%i Failed to find table '%s'\n", __PRETTY_FUNCTION__,
             __LINE__, from_name.c_str());
-          throw x;
+          throw;
         }
       } catch (std::exception & x) {
         printf("%s:%i Failed to find table associated with key '%s'\n",
           __PRETTY_FUNCTION__, __LINE__, k.c_str());
-        throw x;
+        throw;
       }
       return found;
     }
@@ -323,7 +323,7 @@ class lua_source_t : public input_source<lua_source_t>
     } catch (std::exception & x) {
       printf("%s:%i Failed to find table named '%s'\n",
         __PRETTY_FUNCTION__, __LINE__, table_name.c_str());
-      throw x;
+      throw;
     }
   } // get_table
 
-- 
2.43.0


From 93a1f9b3d727ad5c55eb4e26c0ebb3f2b1a37a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:32 +0000
Subject: [PATCH 12/42] fix: looking up a hard-coded input leaves it in the
 source

hard_coded_source_t::get_value moved the value out of the registry, so the
next resolution found an empty string, vector or function under its key.
---
 ristra/initialization/input_source.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ristra/initialization/input_source.h b/ristra/initialization/input_source.h
index 5d4e867..7427e82 100644
--- a/ristra/initialization/input_source.h
+++ b/ristra/initialization/input_source.h
@@ -13,6 +13,7 @@
 #include <memory>
 #include <stdexcept>
 #include <string>
+#include <type_traits>
 #include "ristra/initialization/inputs_impl.h"
 #include "ristra/embedded/embed_lua.h"
 
@@ -105,7 +106,12 @@ class hard_coded_source_t : public input_source<hard_coded_source_t>
     auto it = reg.find(k);
     bool found(false);
     if (reg.end() != it) {
-      t = std::move(it->second);
+      // leave the value where it is, the next lookup needs it too
+      if constexpr (std::is_copy_assignable<T>::value) {
+        t = it->second;
+      } else {
+        t = std::move(it->second);
+      }
       found = true;
     }
     return found;
-- 
2.43.0


From a59be0f9cad0221e07d97168b2b38321dfe676a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:59 +0000
Subject: [PATCH 13/42] fix: a resolution reports only the targets it could not
 resolve

The set of failed targets was never emptied, so targets that an earlier
resolution missed were still listed as unresolved after they had a value.
---
 ristra/initialization/input_engine.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/initialization/input_engine.h b/ristra/initialization/input_engine.h
index 938e6d0..649b625 100644
--- a/ristra/initialization/input_engine.h
+++ b/ristra/initialization/input_engine.h
@@ -429,6 +429,7 @@ class input_engine_t
       target_set_t & targets(inp.get_target_set<T>());
       registry<T> & the_registry(inp.get_registry<T>());
       failed_set_t & failures(inp.get_failed_target_set<T>());
+      failures.clear();
       bool missed_any(false);
       for (auto target : targets) {
         bool found_target(false);
@@ -484,6 +485,7 @@ class input_engine_t
       target_set_t & targets(inp.get_target_set<func_t>());
       registry<func_t> & hc_registry(inp.get_registry<func_t>());
       failed_set_t & failures(inp.get_failed_target_set<func_t>());
+      failures.clear();
       bool missed_any(false);
       for (auto target : targets) {
         bool found_target(false);
-- 
2.43.0


From 10eecde2ecd16252518e07fb92a558687b67125c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:41 +0000
Subject: [PATCH 14/42] fix: resolving a hard-coded function again uses its
 current value

std::map::insert keeps an existing entry, so a function that had been
resolved once was never updated, neither by resolve_inputs nor by
get_instant_value.
---
 ristra/initialization/input_engine.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ristra/initialization/input_engine.h b/ristra/initialization/input_engine.h
index 649b625..9e7f071 100644
--- a/ristra/initialization/input_engine.h
+++ b/ristra/initialization/input_engine.h
@@ -506,12 +506,7 @@ class input_engine_t
           func_t f;
           found_target = hard_coded_source->get_value(target, f);
           if (found_target) {
-            // auto ins_pr =
-            hc_registry.insert(std::make_pair(target, f));
-            // bool inserted = ins_pr.second;
-            // Could have some error checking on whether the thing was
-            // inserted: if it weren't, that might mean this key is already
-            // inhabited, and that would be unexpected.
+            hc_registry[target] = f;
             continue;
           }
         }
@@ -596,7 +591,7 @@ class input_engine_t
         func_t f;
         found_target = hard_coded_source->get_value(target, f);
         if (found_target) {
-          hc_registry.insert(std::make_pair(target, f));
+          hc_registry[target] = f;
         }
       }
       return found_target;
-- 
2.43.0


From 88794ffc8ba925947581cb42c0c67ffd466f4b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:41 +0000
Subject: [PATCH 15/42] fix: register_table looks the table up under its Lua
 key

The optional Lua key was recorded but load_table always used the C++ name.
---
 ristra/initialization/input_source.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ristra/initialization/input_source.h b/ristra/initialization/input_source.h
index 7427e82..02c31ff 100644
--- a/ristra/initialization/input_source.h
+++ b/ristra/initialization/input_source.h
@@ -354,11 +354,14 @@ class lua_source_t : public input_source<lua_source_t>
   void load_table(str_cr_t load_name)
   {
     str_cr_t from_name = m_table_map[load_name];
+    // check if there is a Lua key distinct from load_name
+    str_cr_t l_key(
+      1 == m_lua_key.count(load_name) ? m_lua_key[load_name] : load_name);
     if ("base_state" == from_name) {
-      m_tables.emplace(load_name, lua_try_access(m_lua_state, load_name));
+      m_tables.emplace(load_name, lua_try_access(m_lua_state, l_key));
     } else {
       embedded::lua_result_t & from_state = m_tables.at(from_name);
-      m_tables.emplace(load_name, lua_try_access(from_state, load_name));
+      m_tables.emplace(load_name, lua_try_access(from_state, l_key));
     }
     // printf("%s:%i Loaded table
     // '%s'\n",__FUNCTION__,__LINE__,load_name.c_str());
-- 
2.43.0


From 663b7628c6e37f42297f4f5e962313fbace133b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:56 +0000
Subject: [PATCH 16/42] fix: get_instant_value raises an error when its key
 cannot be resolved

Insist does nothing unless a design-by-contract action is selected, so a
value left in the registry by an earlier resolution was returned instead of
the documented std::runtime_error.
---
 ristra/initialization/input_engine.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ristra/initialization/input_engine.h b/ristra/initialization/input_engine.h
index 9e7f071..388c881 100644
--- a/ristra/initialization/input_engine.h
+++ b/ristra/initialization/input_engine.h
@@ -7,6 +7,7 @@
 #include<ristra/ristra-config.h>
 
 #include "ristra/assertions/dbc.h"
+#include "ristra/assertions/errors.h"
 #include "ristra/embedded/embed_lua.h"
 #include "ristra/initialization/inputs_impl.h"
 #include "ristra/initialization/input_source.h"
@@ -313,7 +314,7 @@ class input_engine_t
     if(!resolved){
       string_t err = "get_instant_value: Could not resolve key '" +
         target_name + "' using type '" + typeid(T).name() + "'";
-      Insist(false,err);
+      THROW_RUNTIME_ERROR(err);
     }
     return get_value<T>(target_name);
   } // get_instant_value
-- 
2.43.0


From 07a35e4642ae3db2b1434205a68a761d4f51ea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:13 +0000
Subject: [PATCH 17/42] fix: a failed resolution leaves no empty function
 behind

Copying the function into the entry operator[] had just created could throw
and leave an empty function that counted as resolved; moving it cannot.
---
 ristra/initialization/input_engine.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristra/initialization/input_engine.h b/ristra/initialization/input_engine.h
index 388c881..b7184f3 100644
--- a/ristra/initialization/input_engine.h
+++ b/ristra/initialization/input_engine.h
@@ -497,7 +497,7 @@ class input_engine_t
           if (found_target) {
             embedded::Lua_Func_Wrapper<func_t> lua_f(std::move(tval));
             func_t cpp_f(lua_f);
-            hc_registry[target] = cpp_f;
+            hc_registry[target] = std::move(cpp_f);
             continue;
           } // if lua found
         } // if lua
@@ -507,7 +507,7 @@ class input_engine_t
           func_t f;
           found_target = hard_coded_source->get_value(target, f);
           if (found_target) {
-            hc_registry[target] = f;
+            hc_registry[target] = std::move(f);
             continue;
           }
         }
@@ -583,7 +583,7 @@ class input_engine_t
         if (found_target) {
           embedded::Lua_Func_Wrapper<func_t> lua_f(std::move(tval));
           func_t cpp_f(lua_f);
-          hc_registry[target] = cpp_f;
+          hc_registry[target] = std::move(cpp_f);
         } // if lua found
       } // if lua
 #endif
@@ -592,7 +592,7 @@ class input_engine_t
         func_t f;
         found_target = hard_coded_source->get_value(target, f);
         if (found_target) {
-          hc_registry[target] = f;
+          hc_registry[target] = std::move(f);
         }
       }
       return found_target;
-- 
2.43.0


From c79d472cfbf90dab413a3947ef2b82959e2e1b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:38 +0000
Subject: [PATCH 18/42] fix: init_value_t::valid() judges the current value

It returned the verdict on an earlier value after the input had been
resolved again, so valid() and get() contradicted each other.
---
 ristra/initialization/init_value.h | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/ristra/initialization/init_value.h b/ristra/initialization/init_value.h
index 3bb1a2c..c77e5f6 100644
--- a/ristra/initialization/init_value.h
+++ b/ristra/initialization/init_value.h
@@ -100,12 +100,6 @@ class init_value_t
   /**\brief Was a valid */
   bool valid() 
   {
-    if (status_t::valid == m_status) {
-      return true;
-    }
-    if (status_t::invalid == m_status) {
-      return false;
-    }
     bool reslvd = resolved();
     if (!reslvd) {
       return false;
-- 
2.43.0


From 0f61dd1d6fcc8c2262c7147f12daf59900803a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:55 +0000
Subject: [PATCH 19/42] fix: registering a table again replaces the previous
 table

std::map::emplace kept the table loaded first, although register_table
reports that the previous definition was displaced.
---
 ristra/initialization/input_source.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ristra/initialization/input_source.h b/ristra/initialization/input_source.h
index 02c31ff..2b64744 100644
--- a/ristra/initialization/input_source.h
+++ b/ristra/initialization/input_source.h
@@ -358,10 +358,11 @@ class lua_source_t : public input_source<lua_source_t>
     str_cr_t l_key(
       1 == m_lua_key.count(load_name) ? m_lua_key[load_name] : load_name);
     if ("base_state" == from_name) {
-      m_tables.emplace(load_name, lua_try_access(m_lua_state, l_key));
+      m_tables.insert_or_assign(
+        load_name, lua_try_access(m_lua_state, l_key));
     } else {
       embedded::lua_result_t & from_state = m_tables.at(from_name);
-      m_tables.emplace(load_name, lua_try_access(from_state, l_key));
+      m_tables.insert_or_assign(load_name, lua_try_access(from_state, l_key));
     }
     // printf("%s:%i Loaded table
     // '%s'\n",__FUNCTION__,__LINE__,load_name.c_str());
-- 
2.43.0


From 593f2d5be67903666a0ce07be8bed02648f692e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:26 +0000
Subject: [PATCH 20/42] fix: init_value_t::get() raises an error while its
 input is unresolved

Insist does nothing unless a design-by-contract action is selected, and a
second get() did not check at all.
---
 ristra/initialization/init_value.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ristra/initialization/init_value.h b/ristra/initialization/init_value.h
index c77e5f6..bd866f1 100644
--- a/ristra/initialization/init_value.h
+++ b/ristra/initialization/init_value.h
@@ -62,14 +62,13 @@ class init_value_t
     // e.g. if(m_status == status_t::valid) return ie.get_value<T>(fname); etc.
     input_engine ie;
     string_t fname(full_name());
-    if (status_t::registered == m_status) {
-      // still just at registered: check if it was resolved
+    if (m_status <= status_t::resolve_failed) {
+      // not known to be resolved: check if it was resolved
       bool resolved = ie.template resolved<T>(fname);
       m_status = resolved ? status_t::initialized : status_t::resolve_failed;
       if (status_t::resolve_failed == m_status) {
-        Insist(false,
-          "Failed to resolve init_value " + m_name + " in namespace " +
-            m_namespace);
+        THROW_RUNTIME_ERROR("Failed to resolve init_value " + m_name +
+                            " in namespace " + m_namespace);
       }
     }
     get_return_t t(ie.template get_value<T>(fname));
-- 
2.43.0


From ff5187740bef06700823ed3f490bffb79c1352f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:16 +0000
Subject: [PATCH 21/42] fix: fixed_vector::data() and reverse iteration compile

data() returned the std::array itself and rbegin()/rend() converted a
const_reverse_iterator to a reverse_iterator.
---
 ristra/utils/fixed_vector.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 7e3af50..e96d888 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -134,8 +134,8 @@ public:
   constexpr reference front() { return data_[0]; }
   constexpr reference back()  { return data_[size()-1]; }
         
-  constexpr const_pointer data() const { return data_; }
-  constexpr pointer data() { return data_; }
+  constexpr const_pointer data() const { return data_.data(); }
+  constexpr pointer data() { return data_.data(); }
         
 
   //============================================================================
@@ -148,10 +148,12 @@ public:
   constexpr const_iterator end() const { return std::next(data_.begin(), length_); }
   constexpr const_iterator cbegin() const { return begin(); }
   constexpr const_iterator cend() const { return end(); }
-  reverse_iterator rbegin() const {
+  reverse_iterator rbegin() { return reverse_iterator(end()); }
+  reverse_iterator rend() { return reverse_iterator(begin()); }
+  const_reverse_iterator rbegin() const {
     return const_reverse_iterator(end());
   }
-  reverse_iterator rend() const {
+  const_reverse_iterator rend() const {
     return const_reverse_iterator(begin());
   }
   const_reverse_iterator crbegin() const { return rbegin(); }
-- 
2.43.0


From 95a45d6c58a5acdb72c771b1af60f3d0ad0b3bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:32 +0000
Subject: [PATCH 22/42] fix: fixed_vectors of different lengths are not equal

Only the elements of the left operand were compared, beyond the end of a
shorter right operand if necessary.
---
 ristra/utils/fixed_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index e96d888..39d0a76 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -385,7 +385,7 @@ template< class T, std::size_t N >
 bool operator==( const fixed_vector<T,N>& lhs,
                  const fixed_vector<T,N>& rhs )
 {
-  return std::equal( lhs.begin(), lhs.end(), rhs.begin() );
+  return std::equal( lhs.begin(), lhs.end(), rhs.begin(), rhs.end() );
 }
     
 } // namespace utils
-- 
2.43.0


From 0634c3fc3dc0c3cf4ad3282dc03a0ee2e04a3ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:53 +0000
Subject: [PATCH 23/42] fix: fixed_vector::insert shifts the elements behind it
 from the end

Copying forward into an overlapping range repeated the element at the
insertion point in every following position (except for types std::copy
turns into memmove).
---
 ristra/utils/fixed_vector.h | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 39d0a76..648b260 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -182,8 +182,7 @@ public:
     // convert to a non-const iterator
     auto d_first = _validate_iterator( pos );
     // shift data to the right
-    auto d_last = std::next(d_first);
-    std::copy(d_first, end(), d_last );
+    std::copy_backward( d_first, end(), std::next(end()) );
     // assign value
     *d_first = value;
     // increment counter
@@ -198,8 +197,7 @@ public:
     // convert to a non-const iterator
     auto d_first = _validate_iterator( pos );
     // shift data to the right
-    auto d_last = std::next(d_first);
-    std::move(d_first, end(), d_last );
+    std::move_backward( d_first, end(), std::next(end()) );
     // assign value
     *d_first = std::move( value );
     // increment counter
@@ -216,8 +214,7 @@ public:
     // if zero size is inserted, return pos
     if ( count == 0 ) return d_first;
     // otherwise, shift data to the right
-    auto d_last = std::next(d_first, count);
-    std::copy(d_first, end(), d_last );
+    std::copy_backward( d_first, end(), std::next(end(), count) );
     // assign value
     std::fill_n( d_first, count, value );
     // increment counter
@@ -240,8 +237,7 @@ public:
     // if zero size is inserted, return pos
     if ( count == 0 ) return d_first;
     // otherwise, shift data to the right
-    auto d_last = std::next(d_first, count);
-    std::move(d_first, end(), d_last );
+    std::move_backward( d_first, end(), std::next(end(), count) );
     // assign values
     std::copy( first, last, d_first );
     // increment counter
@@ -260,8 +256,7 @@ public:
     // if zero size is inserted, return pos
     if ( count == 0 ) return start;
     // otherwise, shift data to the right
-    auto next = std::next(start, count);
-    std::move(start, end(), next );
+    std::move_backward( start, end(), std::next(end(), count) );
     // assign values
     std::copy( ilist.begin(), ilist.end(), start );
     // increment counter
-- 
2.43.0


From 17d900e55d96d36b7067f5ebf864fbb54a36a580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:08 +0000
Subject: [PATCH 24/42] fix: a failed append leaves a fixed_vector unchanged

The length was increased before the element was assigned, so an exception
left an element that nobody had appended.
---
 ristra/utils/fixed_vector.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 648b260..fcfb457 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -307,20 +307,23 @@ public:
   void push_back( const T& value )
   {
     assert( size() < capacity() );
-    data_[length_++] = value;
+    data_[length_] = value;
+    length_++;
   }
 
   void push_back( T&& value )
   {
     assert( size() < capacity() );
-    data_[length_++] = std::move( value );
+    data_[length_] = std::move( value );
+    length_++;
   }
 
   template< class... Args >
   void emplace_back( Args&&... args )
   {
     assert( size() < capacity() );
-    data_[length_++] = value_type( std::forward<Args>(args)... );
+    data_[length_] = value_type( std::forward<Args>(args)... );
+    length_++;
   }
 
   void pop_back() 
-- 
2.43.0


From 319a683ff5b44676509eac87e6a5fef2082d4272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:22 +0000
Subject: [PATCH 25/42] fix: erasing an empty range of a fixed_vector returns
 its end

It returned begin(), so an erase loop started over.
---
 ristra/utils/fixed_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index fcfb457..617a9db 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -289,7 +289,7 @@ public:
     // if empty, nothing to do    
     if ( empty() ) return end();
     // if first == last, nothring to do
-    if ( first == last ) return begin();
+    if ( first == last ) return _validate_iterator( last );
     // get the number of deleted elements
     auto count = std::distance( first, last );
     // convert to a non-const iterator
-- 
2.43.0


From 93574e2b8d4f27a3f1be405d6e699133c48da59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:38 +0000
Subject: [PATCH 26/42] fix: an element of a fixed_vector can be inserted into
 the same vector

The reference denoted a different element once the data had been shifted.
---
 ristra/utils/fixed_vector.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 617a9db..4af35e2 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -181,10 +181,12 @@ public:
     assert( size() < capacity() );
     // convert to a non-const iterator
     auto d_first = _validate_iterator( pos );
+    // value may be one of the elements that get shifted
+    value_type copy( value );
     // shift data to the right
     std::copy_backward( d_first, end(), std::next(end()) );
     // assign value
-    *d_first = value;
+    *d_first = std::move( copy );
     // increment counter
     length_++;
     // return an iterator to the inserted value
-- 
2.43.0


From 23f8721ccb168b878d919bdd420bcf96b8c2c676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:58 +0000
Subject: [PATCH 27/42] fix: in-situ timers measure with a clock that is never
 adjusted

---
 ristra/io/catalyst/utils/insituTimer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristra/io/catalyst/utils/insituTimer.hpp b/ristra/io/catalyst/utils/insituTimer.hpp
index 71ecf23..144d2e4 100644
--- a/ristra/io/catalyst/utils/insituTimer.hpp
+++ b/ristra/io/catalyst/utils/insituTimer.hpp
@@ -9,7 +9,7 @@
 
 class InsituTimer
 {
-	std::map< std::string, std::chrono::time_point<std::chrono::system_clock> > timers;		
+	std::map< std::string, std::chrono::time_point<std::chrono::steady_clock> > timers;		
 	std::map< std::string, std::chrono::duration<double> > timers_duration;
 
   public:
@@ -30,9 +30,9 @@ class InsituTimer
 
 inline int InsituTimer::start(std::string timerName) 
 { 
-	auto startTime = std::chrono::system_clock::now();
+	auto startTime = std::chrono::steady_clock::now();
 	if (timers.find(timerName) == timers.end())
-		timers.insert( std::pair<std::string,std::chrono::time_point<std::chrono::system_clock>>(timerName,startTime) );	
+		timers.insert( std::pair<std::string,std::chrono::time_point<std::chrono::steady_clock>>(timerName,startTime) );	
 	else
 	{
 		timers[timerName] = startTime;
@@ -51,7 +51,7 @@ inline int InsituTimer::stop(std::string timerName)
 { 
 	if (timers.find(timerName) != timers.end())
 	{
-		auto endTime = std::chrono::system_clock::now(); 
+		auto endTime = std::chrono::steady_clock::now(); 
 		auto elapsed_time = endTime - timers[timerName];
 
 		//auto elapsed_seconds = std::chrono::duration_cast<std::chrono::seconds>(elapsed_time).count();
-- 
2.43.0


From 2348d46644a2894b87abc2bb861b51e57b7781d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:15 +0000
Subject: [PATCH 28/42] fix: failed python operations release the objects they
 created

---
 ristra/embedded/embed_python.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index 258cc43..9fd86e1 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -117,11 +117,11 @@ auto python_import( std::string name )
     THROW_RUNTIME_ERROR("Cannot decode module name \"" << name << "\"");
   }
   auto pmodule = PyImport_Import(pname);
+  Py_DECREF(pname);
   if (!pmodule) {
     python_check();
     THROW_RUNTIME_ERROR("Cannot import module \"" << name << "\"");
   }
-  Py_DECREF(pname);
   return pmodule;
 }
 
@@ -141,7 +141,9 @@ auto python_add_to_path( std::string path )
     python_check();
     THROW_RUNTIME_ERROR("Cannot decode path \"" << path << "\"");
   }
-  if (PyList_Insert(syspath, 0, pname)) {
+  auto failed = PyList_Insert(syspath, 0, pname);
+  Py_DECREF(pname);
+  if (failed) {
     python_check();
     THROW_RUNTIME_ERROR("Cannot insert path \"" << path << "\"");
   }
@@ -149,7 +151,6 @@ auto python_add_to_path( std::string path )
     python_check();
     THROW_RUNTIME_ERROR("Cannot set new path.");
   }
-  Py_DECREF(pname);
   return syspath; 
 } 
 
@@ -261,7 +262,13 @@ auto python_build_args( Args&&... args )
     python_check();
     THROW_RUNTIME_ERROR("Cannot initialize arguments.");
   }
-  detail::python_build_args(pargs, 0, std::forward<Args>(args)...);
+  try {
+    detail::python_build_args(pargs, 0, std::forward<Args>(args)...);
+  }
+  catch (...) {
+    Py_DECREF(pargs);
+    throw;
+  }
   return pargs;
 }
 
@@ -278,11 +285,11 @@ auto python_call_function( PyObject * py_func, Args&&... args )
     THROW_RUNTIME_ERROR("Cannot initialize arguments.");
   }
   auto pval = PyObject_CallObject(py_func, pargs);
+  Py_DECREF(pargs);
   if (!pval) {
     python_check();
     THROW_RUNTIME_ERROR("Problem calling function.");
   }
-  Py_DECREF(pargs);
   return pval;
 }
 
-- 
2.43.0


From 024d3abf6eab468404a0b56682c0e18ce2ece1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:15 +0000
Subject: [PATCH 29/42] fix: the path returned by python_add_to_path may be
 freed

---
 ristra/embedded/embed_python.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index 9fd86e1..0662a25 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -151,6 +151,8 @@ auto python_add_to_path( std::string path )
     python_check();
     THROW_RUNTIME_ERROR("Cannot set new path.");
   }
+  // the caller frees the result
+  Py_INCREF(syspath);
   return syspath; 
 } 
 
-- 
2.43.0


From ecc04bf9dd87d8200d691295a28688fd9bc4f492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:15 +0000
Subject: [PATCH 30/42] fix: a python value that cannot be converted raises an
 error

---
 ristra/embedded/embed_python.h | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index 0662a25..a195460 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -168,12 +168,33 @@ auto python_get_attribute( PyObject * py_module, std::string attribute )
 
 inline auto python_as_long( PyObject * py_value )
 {
-  return PyLong_AsLong( py_value );
+  long value = -1;
+  if (PyFloat_Check(py_value)) {
+    // PyLong_AsLong does not convert floats since python 3.10
+    auto pint = PyNumber_Long( py_value );
+    if (pint) {
+      value = PyLong_AsLong( pint );
+      Py_DECREF(pint);
+    }
+  }
+  else {
+    value = PyLong_AsLong( py_value );
+  }
+  if (value == -1 && PyErr_Occurred()) {
+    python_check();
+    THROW_RUNTIME_ERROR("Cannot convert value to an integer.");
+  }
+  return value;
 }
 
 inline auto python_as_double( PyObject * py_value )
 {
-  return PyFloat_AsDouble( py_value );
+  double value = PyFloat_AsDouble( py_value );
+  if (value == -1. && PyErr_Occurred()) {
+    python_check();
+    THROW_RUNTIME_ERROR("Cannot convert value to a real number.");
+  }
+  return value;
 }
 
 auto python_get_value( long arg )
-- 
2.43.0


From 0480930712c3d5d7cc0a173c22bb6cef6f8305fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:15 +0000
Subject: [PATCH 31/42] fix: a python script that fails raises an error

---
 ristra/embedded/embed_python.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index a195460..a0b299d 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -102,7 +102,8 @@ void python_finalize( void )
 
 void python_run_string( std::string exec )
 {
-  PyRun_SimpleString( exec.c_str() );
+  if (PyRun_SimpleString( exec.c_str() ))
+    THROW_RUNTIME_ERROR("Cannot run the python script.");
 } 
 
 auto python_import( std::string name ) 
-- 
2.43.0


From 74e9dc279e8797b254cd8bfaa3f6660611523458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:15 +0000
Subject: [PATCH 32/42] fix: python functions without arguments can be called

---
 ristra/embedded/embed_python.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index a0b299d..2605d1f 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -259,6 +259,8 @@ void python_set_tuple_element( PyObject * py_tup, std::size_t i, Arg && arg )
 
 namespace detail {
 
+inline void python_build_args( PyObject *, std::size_t ) {}
+
 template< typename Arg >
 void python_build_args( PyObject * py_args, std::size_t i, Arg&& arg )
 {
-- 
2.43.0


From 7c51eddb448b7d159e328297edfad121ca37c5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:53 +0000
Subject: [PATCH 33/42] fix: copies of an element of a fixed_vector can be
 inserted into the same vector

---
 ristra/utils/fixed_vector.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 4af35e2..4a12343 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -215,10 +215,12 @@ public:
     auto d_first = _validate_iterator( pos );
     // if zero size is inserted, return pos
     if ( count == 0 ) return d_first;
+    // value may be one of the elements that get shifted
+    value_type copy( value );
     // otherwise, shift data to the right
     std::copy_backward( d_first, end(), std::next(end(), count) );
     // assign value
-    std::fill_n( d_first, count, value );
+    std::fill_n( d_first, count, copy );
     // increment counter
     length_ += count;
     // return an iterator to the inserted value
-- 
2.43.0


From fa2e67609399deb5ff0c0444848b63c16c109d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:55 +0000
Subject: [PATCH 34/42] fix: reading a lua number that is no integer as an
 integer raises an error

---
 ristra/embedded/embed_lua.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 54ce80e..46e5466 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -86,11 +86,12 @@ struct lua_value< T, std::enable_if_t< std::is_integral<T>::value > >
   /// \return The requested value as a long long.
   static T get(lua_State * s, int index = -1) 
   {
-    if ( !lua_isnumber(s,index) )
+    int is_integer = 0;
+    auto i = lua_tointegerx(s, index, &is_integer);
+    if ( !is_integer )
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to int."
     );
-    auto i = lua_tointeger(s, index);
     lua_remove(s,index);
     return i;
   }
-- 
2.43.0


From 76526a06787c6e162b549d5e2c9f12f2253910f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:28 +0000
Subject: [PATCH 35/42] fix: a truncated PNM image fails to load

---
 ristra/io/catalyst/utils/stb_image.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ristra/io/catalyst/utils/stb_image.h b/ristra/io/catalyst/utils/stb_image.h
index f0ebc90..eb87ad8 100644
--- a/ristra/io/catalyst/utils/stb_image.h
+++ b/ristra/io/catalyst/utils/stb_image.h
@@ -7216,7 +7216,10 @@ static void *stbi__pnm_load(stbi__context *s, int *x, int *y, int *comp, int req
 
    out = (stbi_uc *) stbi__malloc_mad3(s->img_n, s->img_x, s->img_y, 0);
    if (!out) return stbi__errpuc("outofmem", "Out of memory");
-   stbi__getn(s, out, s->img_n * s->img_x * s->img_y);
+   if (!stbi__getn(s, out, s->img_n * s->img_x * s->img_y)) {
+      STBI_FREE(out);
+      return stbi__errpuc("bad PNM", "PNM file truncated");
+   }
 
    if (req_comp && req_comp != s->img_n) {
       out = stbi__convert_format(out, s->img_n, req_comp, s->img_x, s->img_y);
-- 
2.43.0


From dddbe2f0c30fbbfecbf91c464244d0ee688539b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:28 +0000
Subject: [PATCH 36/42] fix: scripts of an input file given without a directory
 are looked up beside it

---
 ristra/io/catalyst/utils/catalystUtils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ristra/io/catalyst/utils/catalystUtils.hpp b/ristra/io/catalyst/utils/catalystUtils.hpp
index 95f8b7f..6877e18 100644
--- a/ristra/io/catalyst/utils/catalystUtils.hpp
+++ b/ristra/io/catalyst/utils/catalystUtils.hpp
@@ -20,7 +20,8 @@ inline std::vector<std::string> getCatalystScripts(std::string inputFilename)
       //
       // Find the path 
       std::size_t foundBackslash = inputFilename.find_last_of("/");
-      std::string catalystPath = inputFilename.substr(0,foundBackslash);
+      std::string catalystPath = foundBackslash == std::string::npos ?
+        std::string(".") : inputFilename.substr(0,foundBackslash);
 
       //
       // Pass JSON file to json parser and
-- 
2.43.0


From 8c5a6b3305937f3f9ca868c443bafd8470f03f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:28 +0000
Subject: [PATCH 37/42] fix: a file that ends early while it is compared is not
 identical

---
 ristra/io/catalyst/utils/catalystUtils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ristra/io/catalyst/utils/catalystUtils.hpp b/ristra/io/catalyst/utils/catalystUtils.hpp
index 6877e18..22ead6d 100644
--- a/ristra/io/catalyst/utils/catalystUtils.hpp
+++ b/ristra/io/catalyst/utils/catalystUtils.hpp
@@ -158,7 +158,8 @@ inline bool compareFiles(const std::string& p1, const std::string& p2)
   f2.seekg(0, std::ifstream::beg);
   bool match = std::equal(std::istreambuf_iterator<char>(f1.rdbuf()),
                     std::istreambuf_iterator<char>(),
-                    std::istreambuf_iterator<char>(f2.rdbuf()));
+                    std::istreambuf_iterator<char>(f2.rdbuf()),
+                    std::istreambuf_iterator<char>());
   
   if (match)
     std::cout << "Files " << p1 << " and " << p2 << " are identical!" << std::endl;
-- 
2.43.0


From 7312e093b1fc822e7179e5405069f07d502ec264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:02 +0000
Subject: [PATCH 38/42] fix: reading a lua integer that does not fit the
 requested type raises an error

---
 ristra/embedded/embed_lua.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 46e5466..339ebe3 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -92,8 +92,11 @@ struct lua_value< T, std::enable_if_t< std::is_integral<T>::value > >
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to int."
     );
+    auto value = static_cast<T>(i);
+    if ( static_cast<lua_Integer>(value) != i )
+     THROW_RUNTIME_ERROR( "Integer " << i << " is out of range." );
     lua_remove(s,index);
-    return i;
+    return value;
   }
 };
 
-- 
2.43.0


From 0b269c3c7c39ce460e735247d874915f91b77add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:02 +0000
Subject: [PATCH 39/42] fix: a lua string is read completely, zero bytes
 included

---
 ristra/embedded/embed_lua.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 339ebe3..7dfcfc7 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -158,7 +158,9 @@ struct lua_value<std::string>
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to string."
     );
-    auto str = lua_tostring(s, index);
+    std::size_t len = 0;
+    auto chars = lua_tolstring(s, index, &len);
+    std::string str(chars, len);
     lua_remove(s, index);
     return str;
   }
-- 
2.43.0


From 12808f0bf78295735a5e697e5f582943493bbf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:02 +0000
Subject: [PATCH 40/42] fix: a lua table row that is too long for the matrix
 raises an error

---
 ristra/embedded/embed_lua.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 7dfcfc7..6a082bc 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -282,6 +282,11 @@ struct lua_value< Matrix<T,M,N> >
         THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
           lua_typename(s, lua_type(s, -1)) << "\" to a row of a multiarray."
         );
+      auto m = lua_rawlen(s, -1);
+      if ( m != N )
+        THROW_RUNTIME_ERROR( 
+          "Expecting rows of size"<<N<<", stack row is size " << m
+        );
       for (int j=1; j<=N; ++j) {
         lua_rawgeti(s, -1, j); // push t[j]
         res(i-1,j-1) = lua_value<T>::get(s);
-- 
2.43.0


From daf310b71c788ae44d36342711421f7596e6bcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:02 +0000
Subject: [PATCH 41/42] fix: python code that calls sys.exit is reported as an
 error instead of ending the process

---
 ristra/embedded/embed_python.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index 2605d1f..fbaa17b 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -67,7 +67,11 @@ void python_free( PyObject * py_obj )
 
 void python_check( void ) 
 {
-  if (PyErr_Occurred()) PyErr_Print();
+  if (PyErr_Occurred()) {
+    // PyErr_Print would exit the process
+    if (PyErr_ExceptionMatches(PyExc_SystemExit)) PyErr_Clear();
+    else PyErr_Print();
+  }
 }
 
 void python_set_program_name( std::string name ) 
@@ -102,8 +106,16 @@ void python_finalize( void )
 
 void python_run_string( std::string exec )
 {
-  if (PyRun_SimpleString( exec.c_str() ))
+  // PyRun_SimpleString would exit the process if the script does
+  auto pmain = PyImport_AddModule("__main__");
+  auto pdict = pmain ? PyModule_GetDict(pmain) : nullptr;
+  auto pval = pdict ? 
+    PyRun_String(exec.c_str(), Py_file_input, pdict, pdict) : nullptr;
+  if (!pval) {
+    python_check();
     THROW_RUNTIME_ERROR("Cannot run the python script.");
+  }
+  Py_DECREF(pval);
 } 
 
 auto python_import( std::string name ) 
-- 
2.43.0


From eea42541ce36ca11c14b4be446f2b81025c64e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:48 +0000
Subject: [PATCH 42/42] fix: an element of a python object that is no tuple is
 reported as an error

---
 ristra/embedded/embed_python.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index fbaa17b..aea540d 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -237,6 +237,8 @@ auto python_get_value( double arg )
 
 auto python_get_tuple_element( PyObject * py_tup, std::size_t i )
 {
+  if (!PyTuple_Check(py_tup))
+    THROW_RUNTIME_ERROR("Object is not a tuple.");
   auto n = PyTuple_GET_SIZE(py_tup);
   if (i>=n) {
     python_check();
@@ -254,6 +256,8 @@ auto python_get_tuple_element( PyObject * py_tup, std::size_t i )
 template< typename Arg >
 void python_set_tuple_element( PyObject * py_tup, std::size_t i, Arg && arg )
 {
+  if (!PyTuple_Check(py_tup))
+    THROW_RUNTIME_ERROR("Object is not a tuple.");
   auto n = PyTuple_GET_SIZE(py_tup);
   if (i>=n) {
     python_check();
-- 
2.43.0

