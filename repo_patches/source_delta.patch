From 29165e30548b52d80238bb5929e4a94c8ab27925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:51 +0000
Subject: [PATCH 01/16] fix: make update() of derived cursors see pending
 writes

update() passed the value that the cursor had when its parents were last
propagated, so that writes made through other cursors since then were lost.
---
 lager/writer.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lager/writer.hpp b/lager/writer.hpp
index 93dd54e..18cb78a 100644
--- a/lager/writer.hpp
+++ b/lager/writer.hpp
@@ -37,7 +37,11 @@ struct writer_mixin
     template <typename Fn>
     void update(Fn&& fn)
     {
-        return node_()->send_up(std::forward<Fn>(fn)(node_()->current()));
+        auto node = node_();
+        // derived nodes do not see the writes that are still pending in their
+        // parents until they are refreshed
+        node->refresh();
+        return node->send_up(std::forward<Fn>(fn)(node->current()));
     }
 
     template <typename T>
-- 
2.43.0


From 00c91c674adc7322022516421a9c55cdaf0fc594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 02/16] fix: do not expose uncommitted values through newly
 derived readers

The initial value of a derived node was computed from the pending values
of its parents, which made values visible before commit().
---
 lager/detail/lens_nodes.hpp  | 2 +-
 lager/detail/merge_nodes.hpp | 2 +-
 lager/detail/nodes.hpp       | 7 +++++++
 lager/detail/xform_nodes.hpp | 2 +-
 lager/setter.hpp             | 2 +-
 5 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/lager/detail/lens_nodes.hpp b/lager/detail/lens_nodes.hpp
index 51a791b..d9e919d 100644
--- a/lager/detail/lens_nodes.hpp
+++ b/lager/detail/lens_nodes.hpp
@@ -55,7 +55,7 @@ protected:
 public:
     template <typename Lens2, typename ParentsTuple>
     lens_reader_node(Lens2&& l, ParentsTuple&& parents)
-        : base_t{view(l, current_from(parents)),
+        : base_t{view(l, last_from(parents)),
                  std::forward<ParentsTuple>(parents)}
         , lens_{std::forward<Lens2>(l)}
     {}
diff --git a/lager/detail/merge_nodes.hpp b/lager/detail/merge_nodes.hpp
index 45e2cd4..00ca902 100644
--- a/lager/detail/merge_nodes.hpp
+++ b/lager/detail/merge_nodes.hpp
@@ -46,7 +46,7 @@ public:
 
     template <typename ParentsTuple>
     merge_reader_node(ParentsTuple&& parents)
-        : base_t{current_from(parents), std::forward<ParentsTuple>(parents)}
+        : base_t{last_from(parents), std::forward<ParentsTuple>(parents)}
     {}
 
     void recompute() final { this->push_down(current_from(this->parents())); }
diff --git a/lager/detail/nodes.hpp b/lager/detail/nodes.hpp
index f7dabb9..d2e3fd8 100644
--- a/lager/detail/nodes.hpp
+++ b/lager/detail/nodes.hpp
@@ -347,6 +347,13 @@ current_from(const std::tuple<std::shared_ptr<Nodes>...>& parents)
         parents);
 }
 
+template <typename... Nodes>
+decltype(auto) last_from(const std::tuple<std::shared_ptr<Nodes>...>& parents)
+{
+    return std::apply(
+        [&](auto&&... ptrs) { return zug::tuplify(ptrs->last()...); }, parents);
+}
+
 template <typename Node>
 std::shared_ptr<Node> link_to_parents(std::shared_ptr<Node> n)
 {
diff --git a/lager/detail/xform_nodes.hpp b/lager/detail/xform_nodes.hpp
index 9babe57..93cd915 100644
--- a/lager/detail/xform_nodes.hpp
+++ b/lager/detail/xform_nodes.hpp
@@ -50,7 +50,7 @@ ValueT initial_value(Xform&& xform, const std::tuple<ParentPtrs...>& parents)
     LAGER_TRY {
         return std::apply(
             [&](auto&&... ps) {
-                return xform(zug::last)(detail::no_value{}, ps->current()...);
+                return xform(zug::last)(detail::no_value{}, ps->last()...);
             },
             parents);
     } LAGER_CATCH(const no_value_error&) {
diff --git a/lager/setter.hpp b/lager/setter.hpp
index eec8ec2..0b07bc7 100644
--- a/lager/setter.hpp
+++ b/lager/setter.hpp
@@ -35,7 +35,7 @@ public:
     using value_type = typename ParentT::value_type;
 
     setter_node(std::shared_ptr<ParentT> p, FnT fn)
-        : base_t{p->current()}
+        : base_t{p->last()}
         , parent_{std::move(p)}
         , setter_fn_{std::move(fn)}
     {}
-- 
2.43.0


From 67a464db05f988517f622c75cf17b9a60747d060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:08 +0000
Subject: [PATCH 03/16] fix: let watchers dispose of or reassign their own
 reader

Disconnecting, destroying or reassigning a reader from one of its own
watchers was a use-after-free, or made other watchers miss the change.
---
 lager/detail/signal.hpp | 18 ++++++++++++++++--
 lager/watch.hpp         | 31 ++++++++++++++++++++-----------
 2 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/lager/detail/signal.hpp b/lager/detail/signal.hpp
index 241dc54..e987c3b 100644
--- a/lager/detail/signal.hpp
+++ b/lager/detail/signal.hpp
@@ -73,13 +73,27 @@ public:
     template <typename... Args2>
     void operator()(Args2&&... args)
     {
-        for (auto&& s : slots_)
-            s(std::forward<Args2>(args)...);
+        // A slot may disconnect itself or others, or even destroy this signal,
+        // while it is being called.  The marker keeps our position.
+        marker next;
+        for (auto it = slots_.begin(); it != slots_.end();) {
+            auto& s = *it;
+            slots_.insert(++it, next);
+            s(args...);
+            if (!next.is_linked())
+                return;
+            it = slots_.erase(slots_.iterator_to(next));
+        }
     }
 
     bool empty() const { return slots_.empty(); }
 
 private:
+    struct marker : slot_base
+    {
+        void operator()(Args...) final {}
+    };
+
     using slot_list =
         boost::intrusive::list<slot_base,
                                boost::intrusive::constant_time_size<false>>;
diff --git a/lager/watch.hpp b/lager/watch.hpp
index 114a73d..1c885f7 100644
--- a/lager/watch.hpp
+++ b/lager/watch.hpp
@@ -67,26 +67,30 @@ public:
 
     watchable_base& operator=(const watchable_base& other) noexcept
     {
-        base_t::unlink();
-        node_ = other.node_;
-        if (!base_t::empty() && node_)
-            node_->observers().add(*this);
+        if (node_ != other.node_) {
+            base_t::unlink();
+            node_ = other.node_;
+            if (!conns_.empty() && node_)
+                node_->observers().add(*this);
+        }
         return *this;
     }
 
     watchable_base& operator=(watchable_base&& other) noexcept
     {
-        base_t::unlink();
-        node_ = std::move(other.node_);
-        if (!base_t::empty() && node_)
-            node_->observers().add(*this);
+        if (node_ != other.node_) {
+            base_t::unlink();
+            node_ = std::move(other.node_);
+            if (!conns_.empty() && node_)
+                node_->observers().add(*this);
+        }
         return *this;
     }
 
     template <typename CallbackT>
     auto&& watch(CallbackT&& callback)
     {
-        if (base_t::empty() && node_)
+        if (!base_t::is_linked() && node_)
             node_->observers().add(*this);
         conns_.push_back(base_t::connect(std::forward<CallbackT>(callback)));
         return *this;
@@ -95,11 +99,16 @@ public:
     template <typename CallbackT>
     auto&& bind(CallbackT&& callback)
     {
-        callback(node()->last());
+        auto n = node_; // the callback may drop our reference to the node
+        callback(n->last());
         return watch(std::forward<CallbackT>(callback));
     }
 
-    void nudge() { base_t::operator()(node()->last()); }
+    void nudge()
+    {
+        auto n = node_; // the callbacks may drop our reference to the node
+        base_t::operator()(n->last());
+    }
 
     void unbind()
     {
-- 
2.43.0


From 6de17000b8299153ce5a58c3188e8b9dc3f5466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:49 +0000
Subject: [PATCH 04/16] fix: let finish() end a paused SDL event loop

---
 lager/event_loop/sdl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/event_loop/sdl.hpp b/lager/event_loop/sdl.hpp
index 4950468..7c754b4 100644
--- a/lager/event_loop/sdl.hpp
+++ b/lager/event_loop/sdl.hpp
@@ -146,7 +146,7 @@ struct sdl_event_loop
         while (continue_ && !done_) {
             auto event = SDL_Event{};
             while (continue_ && ((!paused_ && SDL_PollEvent(&event)) ||
-                                 (paused_ && SDL_WaitEvent(&event)))) {
+                                 (paused_ && !done_ && SDL_WaitEvent(&event)))) {
                 if (event.type == post_event_type_) {
                     auto fnp = std::unique_ptr<event_fn>{
                         static_cast<event_fn*>(event.user.data1)};
-- 
2.43.0


From 8e7bb36f0cd947370d1aaf878d46a324380b4a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:23 +0000
Subject: [PATCH 05/16] fix: do not invoke empty effects

is_empty_effect() was never true for lager::effect, because the generic
overload is a better match than the one for std::function; and the effect
converted from an empty effect was not empty.
---
 lager/effect.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lager/effect.hpp b/lager/effect.hpp
index 9a6d35d..47cefdf 100644
--- a/lager/effect.hpp
+++ b/lager/effect.hpp
@@ -53,7 +53,7 @@ lager::effect<lager::actions<...>, ...> " //
                                    std::is_convertible_v<Deps, D2>,
                                int> = 0>
     effect(effect<A2, D2> e)
-        : base_t{std::move(e)}
+        : base_t{e ? base_t{std::move(e)} : base_t{}}
     {}
 
     template <
@@ -190,6 +190,15 @@ bool is_empty_effect(const std::function<future(Ctx)>& v)
     return !v || v.template target<decltype(noop)>() == &noop;
 }
 
+// Without this, the generic overload below would be a better match than the
+// one above, which requires converting the effect to its base class.
+template <typename Action, typename Deps>
+bool is_empty_effect(const effect<Action, Deps>& v)
+{
+    return is_empty_effect(
+        static_cast<const typename effect<Action, Deps>::base_t&>(v));
+}
+
 template <typename Eff>
 bool is_empty_effect(const Eff& v)
 {
-- 
2.43.0


From d9a65cacdcd55a9f48b825607f182d387200e38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:25 +0000
Subject: [PATCH 06/16] fix: do not let lenses lose the whole while viewing it

---
 lager/lenses.hpp          | 9 ++++++++-
 lager/lenses/optional.hpp | 9 +++++----
 lager/lenses/variant.hpp  | 3 ++-
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/lager/lenses.hpp b/lager/lenses.hpp
index 1f8db7c..09c5fc6 100644
--- a/lager/lenses.hpp
+++ b/lager/lenses.hpp
@@ -107,7 +107,14 @@ auto getset(Getter&& getter, Setter&& setter)
 {
     return zug::comp([=](auto&& f) {
         return [&, f = LAGER_FWD(f)](auto&& p) {
-            return f(getter(std::forward<decltype(p)>(p)))([&](auto&& x) {
+            // The setter still needs the whole, so do not let the getter
+            // consume it. When it is a temporary, neither refer to it.
+            using part_t = decltype(getter(p));
+            using view_t = std::conditional_t<
+                std::is_lvalue_reference_v<decltype(p)>,
+                part_t,
+                std::decay_t<part_t>>;
+            return f(static_cast<view_t>(getter(p)))([&](auto&& x) {
                 return setter(std::forward<decltype(p)>(p),
                               std::forward<decltype(x)>(x));
             });
diff --git a/lager/lenses/optional.hpp b/lager/lenses/optional.hpp
index fda878f..0aa1d75 100644
--- a/lager/lenses/optional.hpp
+++ b/lager/lenses/optional.hpp
@@ -26,7 +26,8 @@ auto opt_impl(Lens&& lens)
                 std::declval<std::decay_t<decltype(whole.value())>>()))>>::type;
 
             if (whole.has_value()) {
-                return f(Part{::lager::view(lens, LAGER_FWD(whole).value())})(
+                // do not forward the whole, the setter may need to return it
+                return f(Part{::lager::view(lens, whole.value())})(
                     [&](Part part) {
                         if (part.has_value()) {
                             return std::decay_t<decltype(whole)>{
@@ -149,10 +150,10 @@ ZUG_INLINE_CONSTEXPR auto or_default = value_or();
 ZUG_INLINE_CONSTEXPR auto force_opt = zug::comp([](auto&& f) {
     return [f = LAGER_FWD(f)](auto&& p) {
         using opt_t = std::optional<std::decay_t<decltype(p)>>;
-        auto opt    = opt_t{LAGER_FWD(p)};
-        return f(std::move(opt))([&](auto&& x) -> decltype(auto) {
+        // do not forward the whole, the setter may need to return it
+        return f(opt_t{p})([&](auto&& x) -> decltype(auto) {
             if constexpr (detail::is_optional<std::decay_t<decltype(x)>>::value)
-                return LAGER_FWD(x).value_or(*std::move(opt));
+                return LAGER_FWD(x).value_or(LAGER_FWD(p));
             else
                 return LAGER_FWD(x);
         });
diff --git a/lager/lenses/variant.hpp b/lager/lenses/variant.hpp
index bb1ea57..deb5afd 100644
--- a/lager/lenses/variant.hpp
+++ b/lager/lenses/variant.hpp
@@ -24,7 +24,8 @@ struct alternative_t : zug::detail::pipeable
             using Whole = std::decay_t<decltype(p)>;
             return f([&]() -> Part {
                 if (std::holds_alternative<T>(p)) {
-                    return std::get<T>(LAGER_FWD(p));
+                    // do not forward, the setter may need to return the whole
+                    return std::get<T>(p);
                 } else {
                     return std::nullopt;
                 }
-- 
2.43.0


From dc743144a52d7abe25ab5507df103ffa5ce46426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:48 +0000
Subject: [PATCH 07/16] fix: let the tree debugger follow the branch that it
 creates

---
 lager/debug/tree_debugger.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lager/debug/tree_debugger.hpp b/lager/debug/tree_debugger.hpp
index 4e7f773..7862ac0 100644
--- a/lager/debug/tree_debugger.hpp
+++ b/lager/debug/tree_debugger.hpp
@@ -165,9 +165,10 @@ struct tree_debugger
                                                 {pos.branch, pos.step + 1});
                         return history.push_back(step{act, m, {}});
                     } else {
-                        new_cursor = cursor.push_back({0, 0});
                         return history.update(pos.step, [&](auto node_) {
-                            auto node = *node_;
+                            auto node  = *node_;
+                            new_cursor = cursor.push_back(
+                                {node.branches.size(), 0});
                             node.branches =
                                 node.branches.push_back({step{act, m, {}}});
                             return node;
-- 
2.43.0


From b7a689faee398a096ec6b87a3e6b6daedf20888b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:08 +0000
Subject: [PATCH 08/16] fix: serve the initial model in the debugging server

---
 lager/debug/http_server.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lager/debug/http_server.hpp b/lager/debug/http_server.hpp
index cbc4726..517bca2 100644
--- a/lager/debug/http_server.hpp
+++ b/lager/debug/http_server.hpp
@@ -259,6 +259,7 @@ struct http_debug_server_impl
         assert(!server_);
         context_ = std::move(ctx);
         data_    = std::move(data);
+        model_   = data_.get();
 
         auto router = detail::http::router{};
         router
-- 
2.43.0


From 26d3e141dc8578486118d4f983cc08c9c8dd995e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:08 +0000
Subject: [PATCH 09/16] fix: do not serve files outside of the resources of the
 debugger

---
 lager/debug/http_server.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lager/debug/http_server.hpp b/lager/debug/http_server.hpp
index 517bca2..7303b0a 100644
--- a/lager/debug/http_server.hpp
+++ b/lager/debug/http_server.hpp
@@ -339,6 +339,9 @@ struct http_debug_server_impl
 
             .route(beast::http::verb::get, "/?.*", [this](auto&& req) {
                 auto req_path = static_cast<std::string>(req.target());
+                // do not serve anything outside of the resources
+                if (("/" + req_path + "/").find("/../") != std::string::npos)
+                    return create_response_(404, "text/html", "Not found");
                 auto rel_path =
                     req_path == "/" ? "/gui/index.html" : "/gui/" + req_path;
                 auto full_path = resources_path() + rel_path;
-- 
2.43.0


From 211342af32f511a301de09fed9ebe078c7c90a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:47 +0000
Subject: [PATCH 10/16] fix: let loading a container replace its contents

---
 lager/extra/cereal/immer_array.hpp       | 3 ---
 lager/extra/cereal/immer_flex_vector.hpp | 3 ---
 lager/extra/cereal/immer_map.hpp         | 2 ++
 lager/extra/cereal/immer_set.hpp         | 1 +
 lager/extra/cereal/immer_vector.hpp      | 6 ------
 5 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/lager/extra/cereal/immer_array.hpp b/lager/extra/cereal/immer_array.hpp
index 73bc3ae..bdaa461 100644
--- a/lager/extra/cereal/immer_array.hpp
+++ b/lager/extra/cereal/immer_array.hpp
@@ -37,9 +37,6 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::array<T, MP>& array)
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::array<T, MP>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
diff --git a/lager/extra/cereal/immer_flex_vector.hpp b/lager/extra/cereal/immer_flex_vector.hpp
index 988a90f..cdbad0b 100644
--- a/lager/extra/cereal/immer_flex_vector.hpp
+++ b/lager/extra/cereal/immer_flex_vector.hpp
@@ -47,9 +47,6 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar,
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::flex_vector<T, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
diff --git a/lager/extra/cereal/immer_map.hpp b/lager/extra/cereal/immer_map.hpp
index 6a59e5c..da02b76 100644
--- a/lager/extra/cereal/immer_map.hpp
+++ b/lager/extra/cereal/immer_map.hpp
@@ -48,6 +48,7 @@ CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::map<K, T, H, E, MP, B>& m)
     size_type size;
     ar(make_size_tag(size));
 
+    m = {};
     for (auto i = size_type{}; i < size; ++i) {
         T x;
         ar(x);
@@ -86,6 +87,7 @@ CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::map<K, T, H, E, MP, B>& m)
     size_type size;
     ar(make_size_tag(size));
 
+    m = {};
     for (auto i = size_type{}; i < size; ++i) {
         K k;
         T x;
diff --git a/lager/extra/cereal/immer_set.hpp b/lager/extra/cereal/immer_set.hpp
index e862839..952bdda 100644
--- a/lager/extra/cereal/immer_set.hpp
+++ b/lager/extra/cereal/immer_set.hpp
@@ -31,6 +31,7 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::set<T, H, E, MP, B>& m)
     size_type size;
     ar(make_size_tag(size));
 
+    m = {};
     for (auto i = size_type{}; i < size; ++i) {
         T x;
         ar(x);
diff --git a/lager/extra/cereal/immer_vector.hpp b/lager/extra/cereal/immer_vector.hpp
index ee49075..7ee64bd 100644
--- a/lager/extra/cereal/immer_vector.hpp
+++ b/lager/extra/cereal/immer_vector.hpp
@@ -47,9 +47,6 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::vector<T, MP, B, BL>& vector)
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::vector<T, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
@@ -85,9 +82,6 @@ void CEREAL_LOAD_FUNCTION_NAME(
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::vector<immer::box<T, MP>, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
-- 
2.43.0


From 782e6d38880513cf85e614e27a73e2224ee41519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:47 +0000
Subject: [PATCH 11/16] fix: make the camel case serialization of structs
 compile

---
 lager/extra/cereal/struct.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/extra/cereal/struct.hpp b/lager/extra/cereal/struct.hpp
index f92631f..4c7239b 100644
--- a/lager/extra/cereal/struct.hpp
+++ b/lager/extra/cereal/struct.hpp
@@ -79,7 +79,7 @@ CEREAL_SERIALIZE_FUNCTION_NAME(Archive& ar, T& v)
 {
     boost::hana::for_each(boost::hana::keys(v), [&](auto&& k) {
         serialize_optional_nvp(ar,
-                               lager::detail::to_camel_case(k.c_str()),
+                               lager::detail::to_camel_case(k.c_str()).c_str(),
                                boost::hana::at_key(v, k));
     });
 }
-- 
2.43.0


From cb41faa9f64239f088bbaa8dfa34ba73eb1860a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:29 +0000
Subject: [PATCH 12/16] fix: refuse tuples of the wrong size instead of
 aborting

---
 lager/extra/cereal/tuple.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lager/extra/cereal/tuple.hpp b/lager/extra/cereal/tuple.hpp
index ccc420b..2831925 100644
--- a/lager/extra/cereal/tuple.hpp
+++ b/lager/extra/cereal/tuple.hpp
@@ -12,6 +12,8 @@
 
 #pragma once
 
+#include <lager/config.hpp>
+
 #include <cereal/cereal.hpp>
 #include <immer/box.hpp>
 #include <type_traits>
@@ -46,7 +48,8 @@ inline void CEREAL_SERIALIZE_FUNCTION_NAME(Archive& ar,
 {
     auto ts = static_cast<size_type>(sizeof...(Types));
     ar(make_size_tag(ts));
-    assert(ts == sizeof...(Types));
+    if (ts != sizeof...(Types))
+        LAGER_THROW(::cereal::Exception("Invalid tuple size"));
     detail::serialize<sizeof...(Types)>::template apply(ar, tuple);
 }
 
-- 
2.43.0


From 77a9a166f0db010dbd6e1a9ce3fc1b4e932f239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:32 +0000
Subject: [PATCH 13/16] fix: do not take the caller's function away in async()
 of the Asio loop

---
 lager/event_loop/boost_asio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/event_loop/boost_asio.hpp b/lager/event_loop/boost_asio.hpp
index 176da9a..eaa9796 100644
--- a/lager/event_loop/boost_asio.hpp
+++ b/lager/event_loop/boost_asio.hpp
@@ -53,7 +53,7 @@ struct with_boost_asio_event_loop
     {
         using work_t = boost::asio::executor_work_guard<Executor>;
 
-        std::thread([fn = std::move(fn), work = work_t{executor}] {
+        std::thread([fn = std::forward<Fn>(fn), work = work_t{executor}] {
             fn();
         }).detach();
     }
-- 
2.43.0


From 91b0741e3aaa6288c88540bd467018b83eb5ea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:33 +0000
Subject: [PATCH 14/16] fix: do not notify when a commit leaves the value as it
 was

---
 lager/detail/nodes.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lager/detail/nodes.hpp b/lager/detail/nodes.hpp
index d2e3fd8..4b881e5 100644
--- a/lager/detail/nodes.hpp
+++ b/lager/detail/nodes.hpp
@@ -47,6 +47,8 @@
 #include <algorithm>
 #include <functional>
 #include <memory>
+#include <optional>
+#include <utility>
 #include <vector>
 
 namespace lager {
@@ -214,6 +216,10 @@ public:
     {
         this->recompute();
         if (needs_send_down_) {
+            // Remember what the observers know: the value may be back at that
+            // in the end.
+            if (!needs_notify_)
+                known_ = std::move(last_);
             last_            = current_;
             needs_send_down_ = false;
             needs_notify_    = true;
@@ -234,7 +240,9 @@ public:
             notifying_guard_t notifying_guard(notifying_);
             bool garbage = false;
 
-            this->observers()(last_);
+            auto known = std::exchange(known_, std::nullopt);
+            if (!known || has_changed(*known, last_))
+                this->observers()(last_);
             // We cannot use ranged-for here because children might
             // change as a result of notify(). This can invalidate
             // the iterators on children, causing undefined behaviors.
@@ -257,6 +265,7 @@ public:
 private:
     value_type current_;
     value_type last_;
+    std::optional<value_type> known_;
 
     bool needs_send_down_ = false;
     bool needs_notify_    = false;
-- 
2.43.0


From 17f636ae676b4cc021642d6f6d7cbdf23496d8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:35 +0000
Subject: [PATCH 15/16] fix: do not show pending values of other roots when
 some are committed

---
 lager/detail/lens_nodes.hpp  | 5 +++++
 lager/detail/merge_nodes.hpp | 1 +
 lager/detail/nodes.hpp       | 7 ++++++-
 lager/detail/xform_nodes.hpp | 6 ++++++
 lager/setter.hpp             | 2 +-
 5 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/lager/detail/lens_nodes.hpp b/lager/detail/lens_nodes.hpp
index d9e919d..0a5ef23 100644
--- a/lager/detail/lens_nodes.hpp
+++ b/lager/detail/lens_nodes.hpp
@@ -64,6 +64,11 @@ public:
     {
         this->push_down(view(lens_, current_from(this->parents())));
     }
+
+    void recompute_last() final
+    {
+        this->push_down(view(lens_, last_from(this->parents())));
+    }
 };
 
 template <typename Lens        = zug::identity_t,
diff --git a/lager/detail/merge_nodes.hpp b/lager/detail/merge_nodes.hpp
index 00ca902..003bd91 100644
--- a/lager/detail/merge_nodes.hpp
+++ b/lager/detail/merge_nodes.hpp
@@ -50,6 +50,7 @@ public:
     {}
 
     void recompute() final { this->push_down(current_from(this->parents())); }
+    void recompute_last() final { this->push_down(last_from(this->parents())); }
 };
 
 template <typename Parents>
diff --git a/lager/detail/nodes.hpp b/lager/detail/nodes.hpp
index 4b881e5..4b9ee03 100644
--- a/lager/detail/nodes.hpp
+++ b/lager/detail/nodes.hpp
@@ -203,6 +203,11 @@ public:
 
     virtual void recompute() = 0;
 
+    /*!
+     * Like recompute(), but from what is committed.
+     */
+    virtual void recompute_last() { this->recompute(); }
+
     template <typename U>
     void push_down(U&& value)
     {
@@ -214,7 +219,7 @@ public:
 
     void send_down() final
     {
-        this->recompute();
+        this->recompute_last();
         if (needs_send_down_) {
             // Remember what the observers know: the value may be back at that
             // in the end.
diff --git a/lager/detail/xform_nodes.hpp b/lager/detail/xform_nodes.hpp
index 93cd915..4dc7883 100644
--- a/lager/detail/xform_nodes.hpp
+++ b/lager/detail/xform_nodes.hpp
@@ -100,6 +100,12 @@ public:
         std::apply([&](auto&&... ps) { down_step_(this, ps->current()...); },
                    this->parents());
     }
+
+    void recompute_last() final
+    {
+        std::apply([&](auto&&... ps) { down_step_(this, ps->last()...); },
+                   this->parents());
+    }
 };
 
 /*!
diff --git a/lager/setter.hpp b/lager/setter.hpp
index 0b07bc7..dc703b4 100644
--- a/lager/setter.hpp
+++ b/lager/setter.hpp
@@ -45,7 +45,7 @@ public:
         if (recomputed_)
             recomputed_ = false;
         else
-            this->push_down(parent_->current());
+            this->push_down(parent_->last());
     }
 
     void refresh() final {}
-- 
2.43.0


From 292ca60093c81cc5d5d6a601ca5ebc09508f75df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:35 +0000
Subject: [PATCH 16/16] fix: do not keep a value that passed a filter only on
 the way to another

---
 lager/detail/nodes.hpp       | 12 ++++++++++++
 lager/detail/xform_nodes.hpp |  1 +
 2 files changed, 13 insertions(+)

diff --git a/lager/detail/nodes.hpp b/lager/detail/nodes.hpp
index 4b9ee03..d9d4eb4 100644
--- a/lager/detail/nodes.hpp
+++ b/lager/detail/nodes.hpp
@@ -236,6 +236,18 @@ public:
         }
     }
 
+    /*!
+     * Forgets values that are not committed, or that were only computed on the
+     * way to the ones that are being committed.
+     */
+    void rollback()
+    {
+        if (known_)
+            this->push_down(*known_);
+        else if (needs_send_down_)
+            current_ = last_;
+    }
+
     void notify() final
     {
         using namespace std;
diff --git a/lager/detail/xform_nodes.hpp b/lager/detail/xform_nodes.hpp
index 4dc7883..b793b96 100644
--- a/lager/detail/xform_nodes.hpp
+++ b/lager/detail/xform_nodes.hpp
@@ -103,6 +103,7 @@ public:
 
     void recompute_last() final
     {
+        this->rollback();
         std::apply([&](auto&&... ps) { down_step_(this, ps->last()...); },
                    this->parents());
     }
-- 
2.43.0

