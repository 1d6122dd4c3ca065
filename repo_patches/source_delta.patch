From e2e166139962cd4f0f2d23e76c8438fc64880e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:06 +0000
Subject: [PATCH 01/51] fix: decode UTF-16 surrogate pairs above U+1FFFF
 correctly

The offset 0x10000 has to be added to the 20 bit payload: or-ing it is wrong as soon as bit 16 of the
payload is set, e.g. U+20000 was decoded as U+10000.
---
 include/lexy/_detail/code_point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/_detail/code_point.hpp b/include/lexy/_detail/code_point.hpp
index 88e7aa0..e0c581c 100644
--- a/include/lexy/_detail/code_point.hpp
+++ b/include/lexy/_detail/code_point.hpp
@@ -296,7 +296,7 @@ constexpr cp_result<Reader> parse_code_point(Reader reader)
             auto result = char32_t(first & payload1);
             result <<= 10;
             result |= char32_t(second & payload2);
-            result |= 0x10000;
+            result += 0x10000;
             return {result, cp_error::success, reader.current()};
         }
         else if ((first & ~payload2) == pattern2)
-- 
2.43.0


From 705612c6cd29dea06bc9000be3849c48a0aa9ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:43 +0000
Subject: [PATCH 02/51] fix: SWAR check of ascii::graph/print accepted the
 maximal code unit in UTF-16/32

Adding the offset wraps around for 0xFFFF and 0xFFFFFFFF as well, so the EOF sentinel of a UTF-32 buffer was
considered printable and e.g. dsl::identifier(dsl::ascii::print) read past the end of the buffer.
---
 include/lexy/dsl/ascii.hpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/include/lexy/dsl/ascii.hpp b/include/lexy/dsl/ascii.hpp
index 5076328..b514c4c 100644
--- a/include/lexy/dsl/ascii.hpp
+++ b/include/lexy/dsl/ascii.hpp
@@ -383,13 +383,10 @@ struct _graph : char_class_base<_graph>
         if (((c + ascii_offset) & ascii_mask) != ascii_expected)
             return false;
 
-        // The above check also included 0xFF for single byte encodings where it overflowed,
+        // The above check also included the maximal code unit (e.g. EOF) where it overflowed,
         // so do a separate check in those cases.
-        if constexpr (sizeof(char_type) == 1)
-        {
-            if ((c & ascii_mask) != ascii_expected)
-                return false;
-        }
+        if ((c & ascii_mask) != ascii_expected)
+            return false;
 
         // Then we must not have a character in column 0, or space.
         // If we subtract one we turn 0x21-0x01 into column 0 and 0x00 to a value definitely not in
@@ -428,13 +425,10 @@ struct _print : char_class_base<_print>
         if (((c + ascii_offset) & ascii_mask) != ascii_expected)
             return false;
 
-        // The above check also included 0xFF for single byte encodings where it overflowed,
+        // The above check also included the maximal code unit (e.g. EOF) where it overflowed,
         // so do a separate check in those cases.
-        if constexpr (sizeof(char_type) == 1)
-        {
-            if ((c & ascii_mask) != ascii_expected)
-                return false;
-        }
+        if ((c & ascii_mask) != ascii_expected)
+            return false;
 
         // Then we must not have a character in column 0.
         constexpr auto mask = lexy::_detail::swar_fill_compl(char_type(0b11111));
-- 
2.43.0


From ed1f01b70fb1975c6d3de5f35a425c3cc116a1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:04 +0000
Subject: [PATCH 03/51] fix: do not nest case folding readers when matching a
 literal trie

---
 include/lexy/dsl/literal.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/literal.hpp b/include/lexy/dsl/literal.hpp
index d57c189..cddb488 100644
--- a/include/lexy/dsl/literal.hpp
+++ b/include/lexy/dsl/literal.hpp
@@ -255,7 +255,9 @@ struct lit_trie_matcher<Trie, CurNode>
             return false;
 
         reader.bump();
-        result = lit_trie_matcher<Trie, Trie.transition_to[TransIdx]>::try_match(reader);
+        // The reader already does the case folding, so we must not add it again.
+        using next = lit_trie_matcher<Trie, Trie.transition_to[TransIdx]>;
+        result     = next::template _impl<>::try_match(reader);
         return true;
     }
 
-- 
2.43.0


From e8ce6629ac22cb60664b6239184b7d65dd5d7463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:25 +0000
Subject: [PATCH 04/51] fix: refill the buffer when a Unicode case folding
 reader is reset

---
 include/lexy/dsl/case_folding.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lexy/dsl/case_folding.hpp b/include/lexy/dsl/case_folding.hpp
index c01f50b..52914ae 100644
--- a/include/lexy/dsl/case_folding.hpp
+++ b/include/lexy/dsl/case_folding.hpp
@@ -261,6 +261,8 @@ struct _sucfrm // simple unicode case folding reader, UTF-8 and UTF-16
     constexpr void reset(marker m) noexcept
     {
         _impl.reset(m);
+        // The buffer still contains the code point of the old position.
+        _fill();
     }
 };
 
-- 
2.43.0


From fdcb6993c40ba1907ea87ec3f6f61b3c3a3ee23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:38 +0000
Subject: [PATCH 05/51] fix: identifier reserve_suffix missed a suffix
 overlapping an earlier match

---
 include/lexy/dsl/identifier.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lexy/dsl/identifier.hpp b/include/lexy/dsl/identifier.hpp
index 906e132..2d6b3a7 100644
--- a/include/lexy/dsl/identifier.hpp
+++ b/include/lexy/dsl/identifier.hpp
@@ -125,8 +125,10 @@ struct _idsp // reserve suffix predicate
         auto reader = input.reader();
         while (true)
         {
-            if (lexy::try_match_token(Set{}, reader)
-                && reader.peek() == decltype(reader)::encoding::eof())
+            // A match that isn't a suffix must not consume anything.
+            auto suffix_reader = reader;
+            if (lexy::try_match_token(Set{}, suffix_reader)
+                && suffix_reader.peek() == decltype(reader)::encoding::eof())
                 return true;
             else if (reader.peek() == decltype(reader)::encoding::eof())
                 return false;
-- 
2.43.0


From e2f26b9b6cebc4534744295d28a74cee081b2d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:26 +0000
Subject: [PATCH 06/51] fix: wrong position after a partial SWAR match of a
 literal with a different character type

---
 include/lexy/dsl/literal.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/literal.hpp b/include/lexy/dsl/literal.hpp
index cddb488..67fb46c 100644
--- a/include/lexy/dsl/literal.hpp
+++ b/include/lexy/dsl/literal.hpp
@@ -42,7 +42,8 @@ constexpr auto match_literal(Reader& reader)
         }
         else
         {
-            auto partial = swar_find_difference<CharT>(reader.peek_swar() & pack.mask, pack.value);
+            auto partial
+                = swar_find_difference<char_type>(reader.peek_swar() & pack.mask, pack.value);
             reader.bump_swar(partial);
             return false;
         }
-- 
2.43.0


From 801d009f48eda47c09d6af11cf9d72335f296dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:38 +0000
Subject: [PATCH 07/51] fix: access to the nodes of a parse_tree with a custom
 memory resource

---
 include/lexy/parse_tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 20f3fe9..1f9d4a2 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -1085,7 +1085,8 @@ private:
 
     _detail::pt_node<Reader>* _ptr;
 
-    friend parse_tree<Reader, TokenKind>;
+    template <typename, typename, typename>
+    friend class parse_tree;
     friend parse_tree_input_traits<_pt_node<Reader, TokenKind>>;
 };
 
-- 
2.43.0


From 5263199111fad68c63369585fd7bb1fcb288517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:38 +0000
Subject: [PATCH 08/51] fix: comparison of the node kind of a token with the
 one of a production

---
 include/lexy/parse_tree.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 1f9d4a2..7fb52a7 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -793,8 +793,10 @@ public:
     {
         if (lhs.is_token() && rhs.is_token())
             return lhs._ptr->as_token()->kind == rhs._ptr->as_token()->kind;
-        else
+        else if (lhs.is_production() && rhs.is_production())
             return lhs._ptr->as_production()->id == rhs._ptr->as_production()->id;
+        else
+            return false;
     }
     friend bool operator!=(_pt_node_kind lhs, _pt_node_kind rhs)
     {
-- 
2.43.0


From 70a2e4a54c5fe14a82bcf95ce93056a0c9929695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:38 +0000
Subject: [PATCH 09/51] fix: siblings() of the root node must be an empty range

---
 include/lexy/parse_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 7fb52a7..276ac5d 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -992,6 +992,10 @@ public:
 
         iterator begin() const noexcept
         {
+            // The next node of the root is the remaining input, which is not a sibling.
+            if (_pt_node(_node).kind().is_root())
+                return end();
+
             // We begin with the next node after ours.
             // If we don't have siblings, this is our node itself.
             return ++iterator(_node);
-- 
2.43.0


From 82877e3bc411b008bfa473c203b351191b670e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:38 +0000
Subject: [PATCH 10/51] fix: parse_tree::clear() has to reset the size

---
 include/lexy/parse_tree.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 276ac5d..30baa13 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -367,7 +367,9 @@ public:
     void clear() noexcept
     {
         _buffer.reset();
-        _root = nullptr;
+        _root  = nullptr;
+        _size  = 0;
+        _depth = 0;
     }
 
     //=== node access ===//
-- 
2.43.0


From 1d5eee738be7e05d2b1eca9b152fa9e571be2e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:38 +0000
Subject: [PATCH 11/51] fix: memory leak when the memory of a parse_tree is
 re-used

---
 include/lexy/parse_tree.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 30baa13..62dd18e 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -267,10 +267,12 @@ public:
     {
         if (remaining_capacity() < size)
         {
-            auto next        = block::allocate(_resource);
-            _cur_block->next = next;
-            _cur_block       = next;
-            _cur_pos         = &_cur_block->memory[0];
+            // If the buffer has been reset, we might already have a next block.
+            if (_cur_block->next == nullptr)
+                _cur_block->next = block::allocate(_resource);
+
+            _cur_block = _cur_block->next;
+            _cur_pos   = &_cur_block->memory[0];
         }
     }
 
-- 
2.43.0


From f0a311507c2852198265422d06026ddfb556b8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:38 +0000
Subject: [PATCH 12/51] fix: cancelling a container that was started at the end
 of a full block

---
 include/lexy/parse_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 62dd18e..fc84784 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -302,7 +302,7 @@ public:
         // Note: this is not guaranteed to work by the standard;
         // We'd have to go through std::less instead.
         // However, on all implementations I care about, std::less just does < anyway.
-        if (_cur_block->memory <= pos && pos < _cur_block->end())
+        if (_cur_block->memory <= pos && pos <= _cur_block->end())
             // We're still in the same block, just reset position.
             _cur_pos = pos;
         else
-- 
2.43.0


From 526dbb9eba836ef754b5f2baa0f27b24da8e2475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:38 +0000
Subject: [PATCH 13/51] fix: reserve memory for the first child pointer of a
 container

---
 include/lexy/parse_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index fc84784..90e367e 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -644,6 +644,7 @@ public:
             //
             // If our parent is another container, its start_container() function took care of it.
             // If our parent already has a child, the first_child pointer is taken care of.
+            _result._buffer.reserve(sizeof(_detail::pt_node<Reader>*));
             _result._buffer.template allocate<_detail::pt_node<Reader>*>(nullptr);
         }
 
-- 
2.43.0


From 8300ce93bff2602a1e5dca18bd9154e85bf01cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:38 +0000
Subject: [PATCH 14/51] fix: cancelling a transparent production has to remove
 its children

---
 include/lexy/parse_tree.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 90e367e..9e79443 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -625,8 +625,12 @@ public:
     {
         LEXY_PRECONDITION(_cur.prod || m.prod == _cur.prod);
         if (_cur.prod == m.prod)
-            // We're backtracking a transparent production, do nothing.
+        {
+            // We're backtracking a transparent production, only remove the children added to the
+            // current node.
+            _cur = LEXY_MOV(m);
             return;
+        }
 
         _result._buffer.unwind(_cur.unwind_pos);
         // Continue with parent.
-- 
2.43.0


From 8db3be9ec4dbb74a0d7d1d727229545c9b71b5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:38 +0000
Subject: [PATCH 15/51] fix: size of a parse tree with cancelled productions

---
 include/lexy/parse_tree.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 9e79443..553cf4d 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -436,6 +436,8 @@ public:
         _detail::pt_node_production<Reader>* prod;
         // The number of children we've already added.
         std::size_t child_count;
+        // The total number of descendants of those children.
+        std::size_t descendant_count;
         // The first and last child of the container.
         _detail::pt_node<Reader>* first_child;
         _detail::pt_node<Reader>* last_child;
@@ -448,8 +450,9 @@ public:
 
         explicit marker(void* unwind_pos, std::size_t cur_depth,
                         _detail::pt_node_production<Reader>* prod = nullptr)
-        : unwind_pos(unwind_pos), prod(prod), child_count(0), first_child(nullptr),
-          last_child(nullptr), cur_depth(cur_depth), local_max_depth(cur_depth)
+        : unwind_pos(unwind_pos), prod(prod), child_count(0), descendant_count(0),
+          first_child(nullptr), last_child(nullptr), cur_depth(cur_depth),
+          local_max_depth(cur_depth)
         {}
 
         void clear()
@@ -526,7 +529,7 @@ public:
 
         void update_size_depth(std::size_t& size, std::size_t& max_depth)
         {
-            size += child_count;
+            size += child_count + descendant_count;
 
             if (cur_depth == local_max_depth && child_count > 0)
                 // We have children we haven't yet accounted for.
@@ -613,7 +616,7 @@ public:
             // We're finishing with a transparent production, do nothing.
             return;
 
-        _cur.update_size_depth(_result._size, m.local_max_depth);
+        _cur.update_size_depth(m.descendant_count, m.local_max_depth);
         _cur.insert_children_into(_cur.prod);
 
         // Insert the production node into the parent and continue with it.
@@ -690,7 +693,7 @@ public:
             else
                 return _cur.local_max_depth + 1;
         }();
-        _result._size += _cur.child_count;
+        new_container.descendant_count = _cur.child_count + _cur.descendant_count;
 
         // And we continue with the current container.
         _cur = new_container;
@@ -703,8 +706,9 @@ public:
         // Insert the children of our container into the parent.
         m.insert_list(_cur.child_count, _cur.first_child, _cur.last_child);
 
-        // We can't update size yet, it would be double counted.
-        // We do need to update the max depth if necessary, however.
+        // We only add the descendants, the children are now children of the parent.
+        m.descendant_count += _cur.descendant_count;
+        // We also need to update the max depth if necessary.
         std::size_t size = 0;
         _cur.update_size_depth(size, m.local_max_depth);
 
-- 
2.43.0


From 6ff890188eda92f19e1d5511f562ba1a403b60be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:35 +0000
Subject: [PATCH 16/51] fix: restore whitespace skipping if a rule inside
 dsl::no_whitespace fails

---
 include/lexy/dsl/whitespace.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/lexy/dsl/whitespace.hpp b/include/lexy/dsl/whitespace.hpp
index 171df52..d5feacf 100644
--- a/include/lexy/dsl/whitespace.hpp
+++ b/include/lexy/dsl/whitespace.hpp
@@ -241,10 +241,11 @@ struct _wsn : _copy_base<Rule>
     struct _pc
     {
         template <typename Context, typename Reader, typename... Args>
-        LEXY_PARSER_FUNC static bool parse(Context& context, Reader& reader, Args&&... args)
+        LEXY_PARSER_FUNC static bool parse(Context& context, Reader& reader, bool previous,
+                                           Args&&... args)
         {
-            // Enable automatic whitespace skipping again.
-            context.control_block->enable_whitespace_skipping = true;
+            // Enable automatic whitespace skipping again, unless an outer rule disabled it.
+            context.control_block->enable_whitespace_skipping = previous;
             // And skip whitespace once.
             return lexy::whitespace_parser<Context, NextParser>::parse(context, reader,
                                                                        LEXY_FWD(args)...);
@@ -274,8 +275,13 @@ struct _wsn : _copy_base<Rule>
         LEXY_PARSER_FUNC auto finish(Context& context, Reader& reader, Args&&... args)
         {
             // Finish the rule with whitespace skipping disabled.
+            auto previous = context.control_block->enable_whitespace_skipping;
             context.control_block->enable_whitespace_skipping = false;
-            return rule.template finish<_pc<NextParser>>(context, reader, LEXY_FWD(args)...);
+            auto result = rule.template finish<_pc<NextParser>>(context, reader, bool(previous),
+                                                                LEXY_FWD(args)...);
+            // Also restore it if the rule failed and something recovers from the error.
+            context.control_block->enable_whitespace_skipping = previous;
+            return result;
         }
     };
 
@@ -296,9 +302,13 @@ struct _wsn : _copy_base<Rule>
             else
             {
                 // Parse the rule with whitespace skipping disabled.
+                auto previous = context.control_block->enable_whitespace_skipping;
                 context.control_block->enable_whitespace_skipping = false;
                 using parser = lexy::parser_for<Rule, _pc<NextParser>>;
-                return parser::parse(context, reader, LEXY_FWD(args)...);
+                auto result  = parser::parse(context, reader, bool(previous), LEXY_FWD(args)...);
+                // Also restore it if the rule failed and something recovers from the error.
+                context.control_block->enable_whitespace_skipping = previous;
+                return result;
             }
         }
     };
-- 
2.43.0


From 6328533b8d034529b47bab85999d36a1ffe4ca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:08 +0000
Subject: [PATCH 17/51] fix: restore the recursion depth if a recursive
 production fails

---
 include/lexy/dsl/production.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/lexy/dsl/production.hpp b/include/lexy/dsl/production.hpp
index 8e4b19f..3a7a594 100644
--- a/include/lexy/dsl/production.hpp
+++ b/include/lexy/dsl/production.hpp
@@ -202,7 +202,12 @@ struct _recb : branch_base
             using depth = _depth_handler<NextParser>;
             if (!depth::increment_depth(context, reader))
                 return false;
-            return _impl.template finish<depth>(context, reader, LEXY_FWD(args)...);
+
+            auto previous = context.control_block->cur_depth - 1;
+            auto result   = _impl.template finish<depth>(context, reader, LEXY_FWD(args)...);
+            // Also restore it if the production failed and something recovers from the error.
+            context.control_block->cur_depth = previous;
+            return result;
         }
     };
 
@@ -216,8 +221,12 @@ struct _recb : branch_base
             if (!depth::increment_depth(context, reader))
                 return false;
 
-            return lexy::parser_for<_prd<Production>, depth>::parse(context, reader,
-                                                                    LEXY_FWD(args)...);
+            auto previous = context.control_block->cur_depth - 1;
+            auto result   = lexy::parser_for<_prd<Production>, depth>::parse(context, reader,
+                                                                             LEXY_FWD(args)...);
+            // Also restore it if the production failed and something recovers from the error.
+            context.control_block->cur_depth = previous;
+            return result;
         }
     };
 
-- 
2.43.0


From a847fc9bc9c67b60030f411e5f682dcfb43754d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:24 +0000
Subject: [PATCH 18/51] fix: token kind of a captured newline

---
 include/lexy/dsl/newline.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/lexy/dsl/newline.hpp b/include/lexy/dsl/newline.hpp
index 57bf8ef..69fdfb1 100644
--- a/include/lexy/dsl/newline.hpp
+++ b/include/lexy/dsl/newline.hpp
@@ -28,6 +28,12 @@ struct _nl : LEXY_DECAY_DECLTYPE(
 constexpr auto newline = _nl{};
 } // namespace lexyd
 
+namespace lexy
+{
+template <>
+inline constexpr auto token_kind_of<lexy::dsl::_nl> = lexy::literal_token_kind;
+} // namespace lexy
+
 namespace lexyd
 {
 struct _eol : branch_base
-- 
2.43.0


From cfc8cf36e95f7f7b22021f4f4bcd837f35db4303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:59 +0000
Subject: [PATCH 19/51] fix: digit separators directly after digits matched
 using SWAR

---
 include/lexy/dsl/digit.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/digit.hpp b/include/lexy/dsl/digit.hpp
index 7a21a9f..1422b7c 100644
--- a/include/lexy/dsl/digit.hpp
+++ b/include/lexy/dsl/digit.hpp
@@ -334,14 +334,18 @@ constexpr bool _match_digits_sep(Reader& reader)
         else
         {
             // Attempt to consume as many digits as possible.
+            auto had_digits = false;
             if constexpr (lexy::_detail::is_swar_reader<Reader>)
             {
                 using char_type = typename Reader::encoding::char_type;
                 while (Base::template swar_matches<char_type>(reader.peek_swar()))
+                {
                     reader.bump_swar();
+                    had_digits = true;
+                }
             }
 
-            if (!lexy::try_match_token(digit<Base>, reader))
+            if (!lexy::try_match_token(digit<Base>, reader) && !had_digits)
                 // If we're not having a digit, we're done.
                 break;
         }
-- 
2.43.0


From b151bec2d8f52b5e9b70759538fec135514022a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:00 +0000
Subject: [PATCH 20/51] fix: spurious integer overflow when only non-digits
 follow the maximal number of digits

---
 include/lexy/dsl/integer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/lexy/dsl/integer.hpp b/include/lexy/dsl/integer.hpp
index efa34d1..185e940 100644
--- a/include/lexy/dsl/integer.hpp
+++ b/include/lexy/dsl/integer.hpp
@@ -338,6 +338,11 @@ struct _bounded_integer_parser
 
         // If we've reached this point, we've parsed the maximal number of digits allowed.
         // Now we can only overflow if there are still digits left.
+        if constexpr (!AssumeOnlyDigits)
+        {
+            while (cur != end && Base::digit_value(*cur) >= Base::digit_radix)
+                ++cur;
+        }
         return {value, cur != end};
     }
 };
-- 
2.43.0


From bd941f620b9cc0cc0352b31b3b9b5a92c6887d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:28 +0000
Subject: [PATCH 21/51] fix: delimited() with a case folded delimiter or escape
 on SWAR readers

---
 include/lexy/dsl/delimited.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/lexy/dsl/delimited.hpp b/include/lexy/dsl/delimited.hpp
index 82677b4..4506ef7 100644
--- a/include/lexy/dsl/delimited.hpp
+++ b/include/lexy/dsl/delimited.hpp
@@ -26,6 +26,16 @@ struct missing_delimiter
 
 namespace lexyd
 {
+// Whether the token can only begin with its first character; not the case for case folding.
+template <typename Token>
+constexpr bool _del_is_swar_literal()
+{
+    if constexpr (lexy::is_literal_rule<Token>)
+        return std::is_void_v<typename Token::lit_case_folding>;
+    else
+        return false;
+}
+
 template <typename CharClass, typename Reader>
 struct _del_chars
 {
@@ -58,7 +68,7 @@ struct _del_chars
         // we can munch as much content as possible in a fast loop.
         // We also need to efficiently check for the CharClass for it to make sense.
         if constexpr (lexy::_detail::is_swar_reader<Reader> //
-                      && (lexy::is_literal_rule<Close> && ... && Escs::esc_is_literal)
+                      && (_del_is_swar_literal<Close>() && ... && Escs::esc_is_literal)
                       && !std::is_same_v<
                           decltype(CharClass::template char_class_match_swar<encoding>({})),
                           std::false_type>)
@@ -367,7 +377,7 @@ namespace lexyd
 template <typename Escape, typename... Branches>
 struct _escape : _escape_base
 {
-    static constexpr bool esc_is_literal = lexy::is_literal_rule<Escape>;
+    static constexpr bool esc_is_literal = _del_is_swar_literal<Escape>();
     template <typename Encoding>
     static constexpr auto esc_first_char() -> typename Encoding::char_type
     {
-- 
2.43.0


From 8c1dd548ae90e6b40843f498d63b9bb009b37b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:16 +0000
Subject: [PATCH 22/51] fix: operator tags constructed from the parse state in
 an expression

---
 include/lexy/dsl/operator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/operator.hpp b/include/lexy/dsl/operator.hpp
index a783c01..fc2f49b 100644
--- a/include/lexy/dsl/operator.hpp
+++ b/include/lexy/dsl/operator.hpp
@@ -122,7 +122,8 @@ struct _op : branch_base
         else if constexpr (lexy::_detail::is_detected<_detect_op_tag_ctor_with_state, op_tag_type,
                                                       Reader, Context>)
             return continuation::parse(context, reader, LEXY_FWD(args)...,
-                                       op_tag_type(*context.control_block->parse_state, op.pos));
+                                       op_tag_type(*context.control_block->parse_state,
+                                                   op.cur.position()));
         else if constexpr (lexy::_detail::is_detected<_detect_op_tag_ctor, op_tag_type, Reader>)
             return continuation::parse(context, reader, LEXY_FWD(args)...,
                                        op_tag_type(op.cur.position()));
-- 
2.43.0


From f280a33703cd85cc46698cc5340e57cb905b2bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:16 +0000
Subject: [PATCH 23/51] fix: nesting level of operators in an expression

It has counted all operators of the expression, including siblings,
so that e.g. a flat list of many prefix operators was rejected.
---
 include/lexy/dsl/expression.hpp | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/include/lexy/dsl/expression.hpp b/include/lexy/dsl/expression.hpp
index 75bf05c..f45722a 100644
--- a/include/lexy/dsl/expression.hpp
+++ b/include/lexy/dsl/expression.hpp
@@ -256,10 +256,29 @@ struct _expr : rule_base
 {
     struct _state
     {
-        unsigned cur_group         = 0;
+        unsigned cur_group = 0;
+        // The number of operators whose right operand we're currently parsing.
         unsigned cur_nesting_level = 0;
+        // The nesting level of the operand we've just parsed.
+        unsigned cur_operand_level = 0;
     };
 
+    // Parses the right operand of an operator.
+    template <unsigned MinBindingPower, typename Context, typename Reader>
+    static constexpr bool _parse_operand(Context& context, Reader& reader, _state& state)
+    {
+        auto lhs_level          = state.cur_operand_level;
+        state.cur_operand_level = 0;
+
+        ++state.cur_nesting_level;
+        auto result = _parse<MinBindingPower>(context, reader, state);
+        --state.cur_nesting_level;
+
+        if (state.cur_operand_level < lhs_level)
+            state.cur_operand_level = lhs_level;
+        return result;
+    }
+
     template <typename Operation>
     struct _continuation
     {
@@ -294,7 +313,7 @@ struct _expr : rule_base
                     while (true)
                     {
                         // Parse (another) value.
-                        if (!_parse<binding_power.rhs>(context, reader, state))
+                        if (!_parse_operand<binding_power.rhs>(context, reader, state))
                         {
                             result = false;
                             break;
@@ -339,7 +358,7 @@ struct _expr : rule_base
                 }
                 else if constexpr (binding_power.is_prefix())
                 {
-                    if (!_parse<binding_power.rhs>(context, reader, state))
+                    if (!_parse_operand<binding_power.rhs>(context, reader, state))
                         return false;
 
                     auto value    = LEXY_MOV(context.value);
@@ -357,7 +376,7 @@ struct _expr : rule_base
                     auto lhs      = LEXY_MOV(context.value);
                     context.value = {};
 
-                    if (!_parse<binding_power.rhs>(context, reader, state))
+                    if (!_parse_operand<binding_power.rhs>(context, reader, state))
                     {
                         // Put it back, so we can properly recover.
                         context.value = LEXY_MOV(lhs);
@@ -401,6 +420,7 @@ struct _expr : rule_base
                                                      LEXY_FWD(op_args)...);
                 }
 
+                ++state.cur_operand_level;
                 context.on(_ev::operation_chain_op{}, Operation{}, reader.position());
                 return true;
             }
@@ -414,7 +434,9 @@ struct _expr : rule_base
             using production = typename Context::production;
 
             // Check whether we might have nested to far.
-            if (state.cur_nesting_level++ >= production::max_operator_nesting)
+            // Here, cur_operand_level is the one of the left operand (or zero if there is none).
+            if (state.cur_nesting_level + state.cur_operand_level
+                >= production::max_operator_nesting)
             {
                 using tag = typename production::operator_nesting_error;
                 auto err  = lexy::error<Reader, tag>(op.cur.position(), reader.position());
-- 
2.43.0


From 082fa0f27c4ae3be5c3ff2356dd1b5a4820c9f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:16 +0000
Subject: [PATCH 24/51] fix: first operator of infix_op_list without values was
 passed to the sink

---
 include/lexy/dsl/expression.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lexy/dsl/expression.hpp b/include/lexy/dsl/expression.hpp
index f45722a..c2d8f8c 100644
--- a/include/lexy/dsl/expression.hpp
+++ b/include/lexy/dsl/expression.hpp
@@ -306,8 +306,9 @@ struct _expr : rule_base
                         sink(*LEXY_MOV(context.value));
                     context.value = {};
 
-                    // As well as the operator we've already got.
-                    sink(LEXY_FWD(op_args)...);
+                    // As well as the operator we've already got, if it has produced a value.
+                    if constexpr (sizeof...(Args) > 0)
+                        sink(LEXY_FWD(op_args)...);
 
                     auto result = true;
                     while (true)
-- 
2.43.0


From bd3d82f36d1aac7517760c9cadf9b6894f29663d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:27 +0000
Subject: [PATCH 25/51] fix: flags reports a flag without bits as duplicate

The documented check is (result & flag) != 0; the code compared with the flag,
so a flag whose value is zero was a duplicate the first time.
---
 include/lexy/dsl/flags.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/dsl/flags.hpp b/include/lexy/dsl/flags.hpp
index 2cf26b3..a3a40a3 100644
--- a/include/lexy/dsl/flags.hpp
+++ b/include/lexy/dsl/flags.hpp
@@ -52,7 +52,7 @@ struct _flags : rule_base
                     return false;
 
                 auto flag = _int_type(bp.value());
-                if ((result & flag) == flag)
+                if ((result & flag) != 0)
                 {
                     using tag = lexy::_detail::type_or<DuplicateError, lexy::duplicate_flag>;
                     auto err  = lexy::error<Reader, tag>(begin, reader.position());
-- 
2.43.0


From ad958eea2a4ec210be3c0eb71fbbe695b99159f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:17 +0000
Subject: [PATCH 26/51] fix: trace ignores the TokenKind, so tokens of the user
 have no name

---
 include/lexy/action/trace.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/action/trace.hpp b/include/lexy/action/trace.hpp
index 540f72d..975bb74 100644
--- a/include/lexy/action/trace.hpp
+++ b/include/lexy/action/trace.hpp
@@ -441,7 +441,7 @@ struct trace_action
     visualization_options _opts;
     State*                _state = nullptr;
 
-    using handler = _th<OutputIt, Input>;
+    using handler = _th<OutputIt, Input, TokenKind>;
     using state   = State;
     using input   = Input;
 
-- 
2.43.0


From baa9430d7deba8d5dc1b6096f16f2c5f5c788318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:10 +0000
Subject: [PATCH 27/51] fix: trace of an error that begins before a child
 production

The location was computed from the anchor of the last child, which is too late if
e.g. the duplicate part of a combination contains a production on a later line.
---
 include/lexy/action/trace.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/lexy/action/trace.hpp b/include/lexy/action/trace.hpp
index 975bb74..fbbb3be 100644
--- a/include/lexy/action/trace.hpp
+++ b/include/lexy/action/trace.hpp
@@ -330,6 +330,7 @@ public:
 
             // All events for the production are after the initial event.
             _previous_anchor.emplace(handler._anchor);
+            _production_anchor.emplace(loc.anchor());
             handler._anchor = loc.anchor();
         }
         void on(_th& handler, parse_events::production_finish, iterator pos)
@@ -380,7 +381,9 @@ public:
         template <typename Error>
         void on(_th& handler, parse_events::error, const Error& error)
         {
-            auto loc = handler.get_location(error.position());
+            // An error can begin before a child production that has already been parsed,
+            // so the current anchor might be too late.
+            auto loc = get_input_location(*handler._input, error.position(), *_production_anchor);
             handler._writer.write_error(loc, error);
         }
 
@@ -411,6 +414,8 @@ public:
         // The beginning of the previous production.
         // If the current production gets canceled, it needs to be restored.
         _detail::lazy_init<input_location_anchor<Input>> _previous_anchor;
+        // The beginning of the current production.
+        _detail::lazy_init<input_location_anchor<Input>> _production_anchor;
     };
 
     template <typename Production, typename State>
-- 
2.43.0


From 247659486d6b15c50bf4c9256a1f1c0d44535282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:15 +0000
Subject: [PATCH 28/51] fix: list with terminator reports cancelled branches
 inconsistently

The item of a list whose separator was missing was cancelled even after it
had been finished; the terminator checked after a separator was not
cancelled when it did not match.
---
 include/lexy/dsl/list.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/lexy/dsl/list.hpp b/include/lexy/dsl/list.hpp
index f2f6885..316e72b 100644
--- a/include/lexy/dsl/list.hpp
+++ b/include/lexy/dsl/list.hpp
@@ -223,11 +223,13 @@ struct _lstt : rule_base
                         if constexpr (lexy::is_branch_rule<Item>)
                         {
                             lexy::branch_parser_for<Item, Reader> item{};
-                            if (item.try_parse(context.control_block, reader)
-                                && item.template finish<lexy::sink_parser>(context, reader, sink))
+                            if (item.try_parse(context.control_block, reader))
                             {
-                                // Continue after an item has been parsed.
-                                state = _state::terminator;
+                                // Continue after an item has been parsed, or recover if it failed.
+                                state = item.template finish<lexy::sink_parser>(context, reader,
+                                                                                sink)
+                                            ? _state::terminator
+                                            : _state::recovery;
                                 break;
                             }
                             else
@@ -278,7 +280,8 @@ struct _lstt : rule_base
                     }
                     else
                     {
-                        // We didn't have a separator, parse item next.
+                        // We didn't have the terminator, parse item next.
+                        term.cancel(context);
                         state = _state::item;
                         break;
                     }
-- 
2.43.0


From b82612b3c429ed1bfa490b435872d616f9463ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:59 +0000
Subject: [PATCH 29/51] fix: value of a context counter or flag changes after
 it was produced

value() passed a reference to the variable, so a later rule that modified
it also changed the value that had already been produced.
---
 include/lexy/dsl/context_counter.hpp | 2 +-
 include/lexy/dsl/context_flag.hpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lexy/dsl/context_counter.hpp b/include/lexy/dsl/context_counter.hpp
index 1616871..6ae4c51 100644
--- a/include/lexy/dsl/context_counter.hpp
+++ b/include/lexy/dsl/context_counter.hpp
@@ -153,7 +153,7 @@ struct _ctx_cvalue : rule_base
         LEXY_PARSER_FUNC static bool parse(Context& context, Reader& reader, Args&&... args)
         {
             return NextParser::parse(context, reader, LEXY_FWD(args)...,
-                                     _ctx_counter<Id>::get(context.control_block));
+                                     int(_ctx_counter<Id>::get(context.control_block)));
         }
     };
 };
diff --git a/include/lexy/dsl/context_flag.hpp b/include/lexy/dsl/context_flag.hpp
index b7b9151..7c57466 100644
--- a/include/lexy/dsl/context_flag.hpp
+++ b/include/lexy/dsl/context_flag.hpp
@@ -98,7 +98,7 @@ struct _ctx_fvalue : rule_base
         LEXY_PARSER_FUNC static bool parse(Context& context, Reader& reader, Args&&... args)
         {
             return NextParser::parse(context, reader, LEXY_FWD(args)...,
-                                     _ctx_flag<Id>::get(context.control_block));
+                                     bool(_ctx_flag<Id>::get(context.control_block)));
         }
     };
 };
-- 
2.43.0


From 6690046aa7ac55cdefa2bc8616771774822fd6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:16 +0000
Subject: [PATCH 30/51] fix: bytes F8 to FE were treated as the end of UTF-8
 input

Visualizing a lexeme that contains one of them dropped the rest of it.
---
 include/lexy/_detail/code_point.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/lexy/_detail/code_point.hpp b/include/lexy/_detail/code_point.hpp
index e0c581c..c4179fb 100644
--- a/include/lexy/_detail/code_point.hpp
+++ b/include/lexy/_detail/code_point.hpp
@@ -264,10 +264,14 @@ constexpr cp_result<Reader> parse_code_point(Reader reader)
             else
                 return {cp, cp_error::success, reader.current()};
         }
-        else // FE or FF
+        else if (reader.peek() == Reader::encoding::eof())
         {
             return {{}, cp_error::eof, reader.current()};
         }
+        else // F8 to FE, never occurs in UTF-8
+        {
+            return {{}, cp_error::leads_with_trailing, reader.current()};
+        }
     }
     else if constexpr (std::is_same_v<typename Reader::encoding, lexy::utf16_encoding>)
     {
-- 
2.43.0


From 69d6f594a59881cf922c19e57f964cd27b05f530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:16 +0000
Subject: [PATCH 31/51] fix: visualizing a lexeme dropped bytes that are not
 ASCII in ASCII encoding

---
 include/lexy/visualize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lexy/visualize.hpp b/include/lexy/visualize.hpp
index f553087..a67255d 100644
--- a/include/lexy/visualize.hpp
+++ b/include/lexy/visualize.hpp
@@ -394,8 +394,8 @@ OutputIt visualize_to(OutputIt out, lexy::lexeme<Reader> lexeme,
                 // Visualize each skipped code unit as byte.
                 for (auto cur = begin; cur != end; ++cur)
                 {
-                    if constexpr (std::is_same_v<encoding,
-                                                 lexy::utf8_encoding> //
+                    if constexpr (std::is_same_v<encoding, lexy::ascii_encoding>   //
+                                  || std::is_same_v<encoding, lexy::utf8_encoding> //
                                   || std::is_same_v<encoding, lexy::utf8_char_encoding>)
                     {
                         out = write_escaped_byte(out, static_cast<unsigned char>(*cur & 0xFF));
-- 
2.43.0


From ea38fcd71d82538fcbb33890124be669f035d95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:02 +0000
Subject: [PATCH 32/51] fix: write_color did not advance the output iterator
 past the second code

---
 include/lexy/visualize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/visualize.hpp b/include/lexy/visualize.hpp
index a67255d..ed5bf48 100644
--- a/include/lexy/visualize.hpp
+++ b/include/lexy/visualize.hpp
@@ -155,7 +155,7 @@ constexpr OutIt write_color(OutIt out, visualization_options opts)
         return out;
     };
     out = write_code(out, int(CodeHead));
-    ((*out++ = ';', write_code(out, int(CodeTail))), ...);
+    ((*out++ = ';', out = write_code(out, int(CodeTail))), ...);
 
     *out++ = 'm';
     return out;
-- 
2.43.0


From 99ae5e158cd9bd6eac455d34b0d36a3843c1e29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:12 +0000
Subject: [PATCH 33/51] fix: writing a shell lexeme does not compile

The iterator of a shell input has no operator-, so lexeme.size() can't be used.
Also don't dereference the begin of an empty lexeme.
---
 include/lexy_ext/shell.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/lexy_ext/shell.hpp b/include/lexy_ext/shell.hpp
index 0e192c6..ae77cf9 100644
--- a/include/lexy_ext/shell.hpp
+++ b/include/lexy_ext/shell.hpp
@@ -331,9 +331,13 @@ public:
 
         writer& operator()(lexy::lexeme_for<input> lexeme)
         {
+            // An empty lexeme might be at the end, where we can't dereference.
+            if (lexeme.empty())
+                return *this;
+
             // We know that the iterator is contiguous.
             auto data = &*lexeme.begin();
-            _writer(data, lexeme.size());
+            _writer(data, lexy::_detail::range_size(lexeme.begin(), lexeme.end()));
             return *this;
         }
 
-- 
2.43.0


From 25930eab9426c19e746681bfe5ce2f16c8d76c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:12 +0000
Subject: [PATCH 34/51] fix: default_prompt drops the rest of a message after a
 null character

---
 include/lexy_ext/shell.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy_ext/shell.hpp b/include/lexy_ext/shell.hpp
index ae77cf9..e3f4008 100644
--- a/include/lexy_ext/shell.hpp
+++ b/include/lexy_ext/shell.hpp
@@ -123,7 +123,8 @@ struct default_prompt
 
         void operator()(const char_type* buffer, std::size_t size)
         {
-            std::fprintf(stdout, "%.*s", int(size), reinterpret_cast<const char*>(buffer));
+            // Not using the %s specifier, it stops at the first null character.
+            std::fwrite(buffer, sizeof(char_type), size, stdout);
             if (size > 0)
                 _last_was_newline = buffer[size - 1] == '\n';
         }
-- 
2.43.0


From a1b976d8acb0d113bbfc3d11ceff256510f9b544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:12 +0000
Subject: [PATCH 35/51] fix: default_prompt does not read long lines and lines
 with null characters

std::fgets() reads at most size - 1 characters, which the shell takes for a read
error, and the length of the line was determined using std::strlen().
---
 include/lexy_ext/shell.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/lexy_ext/shell.hpp b/include/lexy_ext/shell.hpp
index e3f4008..79bf2ff 100644
--- a/include/lexy_ext/shell.hpp
+++ b/include/lexy_ext/shell.hpp
@@ -101,13 +101,22 @@ struct default_prompt
     {
         std::size_t operator()(char_type* buffer, std::size_t size)
         {
-            LEXY_PRECONDITION(size > 1);
+            // We can't use std::fgets() here, as it reads at most `size - 1` characters and doesn't
+            // tell us how many it has read if the line contains null characters.
+            auto count = std::size_t(0);
+            while (count != size)
+            {
+                auto c = std::fgetc(stdin);
+                if (c == EOF)
+                    break;
 
-            auto memory = reinterpret_cast<char*>(buffer);
-            if (auto str = std::fgets(memory, int(size), stdin))
-                return std::strlen(str);
-            else
-                return 0;
+                buffer[count] = static_cast<char_type>(c);
+                ++count;
+
+                if (c == '\n')
+                    break;
+            }
+            return count;
         }
 
         void done() && {}
-- 
2.43.0


From f48f92aa7f9a3defc06d80259ea748841fa467a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:12 +0000
Subject: [PATCH 36/51] fix: growing a buffer_builder of bigger characters only
 copies part of it

---
 include/lexy/_detail/buffer_builder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/_detail/buffer_builder.hpp b/include/lexy/_detail/buffer_builder.hpp
index f0f5b17..9fc10a2 100644
--- a/include/lexy/_detail/buffer_builder.hpp
+++ b/include/lexy/_detail/buffer_builder.hpp
@@ -91,7 +91,7 @@ public:
         // Allocate new memory.
         auto memory = static_cast<T*>(::operator new(new_cap * sizeof(T)));
         // Copy the read area into the new memory.
-        std::memcpy(memory, _data, _read_size);
+        std::memcpy(memory, _data, _read_size * sizeof(T));
 
         // Release the old memory, if there was any.
         if (_data != _stack_buffer)
-- 
2.43.0


From 4816d7b66715e5f79d516a5014d5fa68b6ca837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:12 +0000
Subject: [PATCH 37/51] fix: UTF-32 byte order mark check ignores the value of
 the last byte

---
 include/lexy/input/buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/input/buffer.hpp b/include/lexy/input/buffer.hpp
index 4380528..ee6d452 100644
--- a/include/lexy/input/buffer.hpp
+++ b/include/lexy/input/buffer.hpp
@@ -440,7 +440,8 @@ struct _make_buffer<utf32_encoding, encoding_endianness::bom>
         {
             if (memory[0] == 0xFF && memory[1] == 0xFE && memory[2] == 0x00 && memory[3] == 0x00)
                 return utf32_little(memory + 4, size - 4, resource);
-            else if (memory[0] == 0x00 && memory[1] == 0x00 && memory[2] == 0xFE && memory[3])
+            else if (memory[0] == 0x00 && memory[1] == 0x00 && memory[2] == 0xFE
+                     && memory[3] == 0xFF)
                 return utf32_big(memory + 4, size - 4, resource);
         }
 
-- 
2.43.0


From 62068d7974afbaee83b7dd270fe98a51fbc8d10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:12 +0000
Subject: [PATCH 38/51] fix: shell input at the end of the user's input

If nothing was read, the last character of the previous line (or the one before
the buffer) was inspected and the reader accessed the buffer out of bounds.
If the last line isn't terminated by a newline, it was treated as EOF once and
then read.
---
 include/lexy_ext/shell.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/lexy_ext/shell.hpp b/include/lexy_ext/shell.hpp
index 79bf2ff..6906bb4 100644
--- a/include/lexy_ext/shell.hpp
+++ b/include/lexy_ext/shell.hpp
@@ -225,8 +225,7 @@ public:
         {
             _shell->_buffer.clear();
             _shell->_prompt.primary_prompt();
-            if (!_shell->append_next_line())
-                _shell->_prompt.eof_prompt();
+            _shell->append_next_line();
         }
 
         bool is_eof() const
@@ -242,10 +241,7 @@ public:
                 // We've reached the end of the buffer, but the user might be willing to type
                 // another line.
                 _shell->_prompt.continuation_prompt();
-                auto did_append = _shell->append_next_line();
-                if (!did_append)
-                    _shell->_prompt.eof_prompt();
-                return !did_append;
+                return !_shell->append_next_line();
             }
         }
 
@@ -387,6 +383,7 @@ private:
         if (_buffer.write_size() < min_capacity)
             _buffer.grow();
 
+        const auto old_size = _buffer.read_size();
         for (auto reader = _prompt.read_line(); true;)
         {
             const auto buffer_size = _buffer.write_size();
@@ -397,7 +394,7 @@ private:
             _buffer.commit(read);
 
             // Check whether we've read the entire line.
-            if (_buffer.write_data()[-1] == '\n')
+            if (read > 0 && _buffer.write_data()[-1] == '\n')
             {
                 LEXY_MOV(reader).done();
                 return true;
@@ -405,7 +402,9 @@ private:
             else if (read < buffer_size)
             {
                 LEXY_ASSERT(!_prompt.is_open(), "read error but prompt still open?!");
-                return false;
+                _prompt.eof_prompt();
+                // We might have read a last line that isn't terminated by a newline.
+                return _buffer.read_size() != old_size;
             }
 
             // We've filled the entire buffer and need more space.
-- 
2.43.0


From f7beaf247b28b4fa2b7eda944211b67c721f3267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:58 +0000
Subject: [PATCH 39/51] fix: reading an empty buffer without memory
 dereferences a null pointer

A default constructed, released or moved-from buffer has no memory, and thus no
sentinel.
---
 include/lexy/input/buffer.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/lexy/input/buffer.hpp b/include/lexy/input/buffer.hpp
index ee6d452..a2d2c05 100644
--- a/include/lexy/input/buffer.hpp
+++ b/include/lexy/input/buffer.hpp
@@ -265,7 +265,8 @@ public:
     auto reader() const& noexcept
     {
         if constexpr (_has_sentinel)
-            return _buffer_reader<encoding>(_data);
+            // A buffer that doesn't own memory is empty, but the reader needs a sentinel.
+            return _buffer_reader<encoding>(_data ? _data : _empty_data.units);
         else
             return _range_reader<encoding>(_data, _data + _size);
     }
@@ -291,6 +292,18 @@ private:
         }
     }
 
+    struct _empty_data_t
+    {
+        char_type units[_detail::round_size_for_swar(1)];
+
+        constexpr _empty_data_t() : units{}
+        {
+            for (auto& unit : units)
+                unit = static_cast<char_type>(encoding::eof());
+        }
+    };
+    static constexpr _empty_data_t _empty_data = {};
+
     LEXY_EMPTY_MEMBER _detail::memory_resource_ptr<MemoryResource> _resource;
     char_type*                                                     _data;
     std::size_t                                                    _size;
-- 
2.43.0


From c9869d9da4661a3447da275dc0bebff98045ce75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:05 +0000
Subject: [PATCH 40/51] fix: reporting an error in a lexeme_input does not
 compile

error_context::input() returns the parent input there.
---
 include/lexy_ext/report_error.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy_ext/report_error.hpp b/include/lexy_ext/report_error.hpp
index b0ba90b..a03ba01 100644
--- a/include/lexy_ext/report_error.hpp
+++ b/include/lexy_ext/report_error.hpp
@@ -238,7 +238,8 @@ OutputIt write_error(OutputIt out, const lexy::error_context<Input>& context,
                      const lexy::error<Reader, Tag>& error, lexy::visualization_options opts,
                      const char* path)
 {
-    diagnostic_writer<Input> writer(context.input(), opts);
+    // The context might return the parent input, which has a different type.
+    diagnostic_writer<LEXY_DECAY_DECLTYPE(context.input())> writer(context.input(), opts);
 
     // Convert the context location and error location into line/column information.
     auto context_location = lexy::get_input_location(context.input(), context.position());
-- 
2.43.0


From ac03ace7a2d049b40bade79ac40554d9d6743e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:12 +0000
Subject: [PATCH 41/51] fix: callback from a sink returns a dangling reference

The sinks of e.g. lexy::as_list return an rvalue reference to themselves from
finish().
---
 include/lexy/callback/adapter.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lexy/callback/adapter.hpp b/include/lexy/callback/adapter.hpp
index 803b6db..f91ac11 100644
--- a/include/lexy/callback/adapter.hpp
+++ b/include/lexy/callback/adapter.hpp
@@ -84,8 +84,10 @@ struct _cb_from_sink
     using return_type = typename _cb::return_type;
 
     template <typename... Args>
-    constexpr auto operator()(Args&&... args) const -> decltype((LEXY_DECLVAL(_cb&)(LEXY_FWD(args)),
-                                                                 ..., LEXY_DECLVAL(_cb&&).finish()))
+    constexpr auto operator()(Args&&... args) const
+        // We need to decay: `finish()` might return a reference to the local sink callback.
+        -> LEXY_DECAY_DECLTYPE((LEXY_DECLVAL(_cb&)(LEXY_FWD(args)), ...,
+                                LEXY_DECLVAL(_cb&&).finish()))
     {
         auto cb = _sink.sink();
         (cb(LEXY_FWD(args)), ...);
-- 
2.43.0


From 7f16ae917db3f5e5026ddd5c52010498ca518190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:44 +0000
Subject: [PATCH 42/51] fix: Unicode case folding treats a code unit that can't
 start a code point as EOF

---
 include/lexy/dsl/case_folding.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/lexy/dsl/case_folding.hpp b/include/lexy/dsl/case_folding.hpp
index 52914ae..32b17d5 100644
--- a/include/lexy/dsl/case_folding.hpp
+++ b/include/lexy/dsl/case_folding.hpp
@@ -223,6 +223,15 @@ struct _sucfrm // simple unicode case folding reader, UTF-8 and UTF-16
                 ++_buffer_size;
                 _impl.bump();
             }
+
+            // The partial code point is empty if the code unit can't start one.
+            // We need to keep it, as an empty buffer is EOF.
+            if (_buffer_size == 0 && _impl.peek() != encoding::eof())
+            {
+                _buffer[0]   = static_cast<typename encoding::char_type>(_impl.peek());
+                _buffer_size = 1;
+                _impl.bump();
+            }
         }
     }
 
-- 
2.43.0


From b747e7c5bcb16f85619b5f0e94dc8bbd22d3f4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:43 +0000
Subject: [PATCH 43/51] fix: scan_result moves from an lvalue

---
 include/lexy/dsl/scan.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/dsl/scan.hpp b/include/lexy/dsl/scan.hpp
index 652342c..34ac574 100644
--- a/include/lexy/dsl/scan.hpp
+++ b/include/lexy/dsl/scan.hpp
@@ -52,7 +52,7 @@ public:
     template <typename U = T, typename = std::enable_if_t<std::is_constructible_v<T, U>>>
     constexpr scan_result(U&& value)
     {
-        _value.emplace(LEXY_MOV(value));
+        _value.emplace(LEXY_FWD(value));
     }
 
     constexpr explicit operator bool() const noexcept
-- 
2.43.0


From b5daf6cbd13515b08b9d5592a34e8375b7e5a4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:43 +0000
Subject: [PATCH 44/51] fix: rule_scanner::recursion_depth() does not compile

---
 include/lexy/dsl/scan.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/lexy/dsl/scan.hpp b/include/lexy/dsl/scan.hpp
index 34ac574..1a97788 100644
--- a/include/lexy/dsl/scan.hpp
+++ b/include/lexy/dsl/scan.hpp
@@ -429,8 +429,7 @@ public:
 
     constexpr std::size_t recursion_depth() const noexcept
     {
-        auto& cb = _context->control_block();
-        return static_cast<std::size_t>(cb.cur_depth);
+        return static_cast<std::size_t>(_context->control_block->cur_depth);
     }
 
     constexpr auto begin() const noexcept -> typename Reader::iterator
-- 
2.43.0


From e31381f0e172d55f05230c424b44bddb8d228550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:14 +0000
Subject: [PATCH 45/51] fix: members of a control production clash with the
 ones of lexy::scan

---
 include/lexy/action/scan.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/lexy/action/scan.hpp b/include/lexy/action/scan.hpp
index 0f1b4e9..e6126ef 100644
--- a/include/lexy/action/scan.hpp
+++ b/include/lexy/action/scan.hpp
@@ -25,7 +25,20 @@ struct _scp<void>
 };
 template <typename ControlProduction>
 struct _scp : ControlProduction, _scp<void>
-{};
+{
+    static LEXY_CONSTEVAL const char* name()
+    {
+        if constexpr (_detail::is_detected<_detail::_detect_name_f, ControlProduction>
+                      || _detail::is_detected<_detail::_detect_name_v, ControlProduction>)
+            return production_name<ControlProduction>();
+        else
+            return _scp<void>::name();
+    }
+
+    // We ignore the rule and value of the control production.
+    static constexpr auto rule  = _scp<void>::rule;
+    static constexpr auto value = _scp<void>::value;
+};
 
 template <typename ControlProduction, typename Input, typename State, typename ErrorCallback>
 class scanner : public _detail::scanner<scanner<ControlProduction, Input, State, ErrorCallback>,
-- 
2.43.0


From 3e92ca13f79e61a787bf0474418de87aae5741c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:44 +0000
Subject: [PATCH 46/51] fix: failing without an error is reported as success

---
 include/lexy/action/validate.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/lexy/action/validate.hpp b/include/lexy/action/validate.hpp
index ed1a7a3..0592618 100644
--- a/include/lexy/action/validate.hpp
+++ b/include/lexy/action/validate.hpp
@@ -96,12 +96,13 @@ private:
     constexpr explicit validate_result(bool did_recover, error_type&& error)
     : _error(LEXY_MOV(error)), _status()
     {
-        if (error_count() == 0u)
+        // Note that a manual scanner can fail without reporting an error.
+        if (!did_recover)
+            _status = _status_fatal;
+        else if (error_count() == 0u)
             _status = _status_success;
-        else if (did_recover)
-            _status = _status_recovered;
         else
-            _status = _status_fatal;
+            _status = _status_recovered;
     }
 
     error_type _error;
-- 
2.43.0


From 00b4cf5c77a5c18d709f766759301b0b89f4ddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:31 +0000
Subject: [PATCH 47/51] fix: range input with a pointer and a different
 sentinel does not compile

---
 include/lexy/input/base.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/lexy/input/base.hpp b/include/lexy/input/base.hpp
index 0d2cff7..0ac44b4 100644
--- a/include/lexy/input/base.hpp
+++ b/include/lexy/input/base.hpp
@@ -80,7 +80,10 @@ LEXY_INSTANTIATION_NEWTYPE(_prb, _pr, lexy::byte_encoding);
 template <typename Encoding, typename Iterator, typename Sentinel>
 constexpr auto _range_reader(Iterator begin, Sentinel end)
 {
-    if constexpr (std::is_pointer_v<Iterator>)
+    using char_ptr = const typename Encoding::char_type*;
+    if constexpr (std::is_pointer_v<Iterator> && std::is_pointer_v<Sentinel>
+                  && std::is_convertible_v<Iterator, char_ptr>
+                  && std::is_convertible_v<Sentinel, char_ptr>)
     {
         if constexpr (std::is_same_v<Encoding, lexy::default_encoding>)
             return _prd(begin, end);
-- 
2.43.0


From 1dfd2f2c6d499281a5027b00210b48dff2a3299e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:31 +0000
Subject: [PATCH 48/51] fix: the production of an error is not available in
 constant expressions

---
 include/lexy/error.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/error.hpp b/include/lexy/error.hpp
index b692cb8..399c972 100644
--- a/include/lexy/error.hpp
+++ b/include/lexy/error.hpp
@@ -248,7 +248,7 @@ public:
     }
 
     /// The name of the production where the error occurred.
-    const char* production() const noexcept
+    constexpr const char* production() const noexcept
     {
         return _production;
     }
-- 
2.43.0


From 859b1ab2749160cac5ff2f576bc7f79468208ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 49/51] fix: subgrammar starts another grammar while one is
 being parsed

---
 include/lexy/action/base.hpp    | 22 +++++++++++++++-------
 include/lexy/dsl/subgrammar.hpp |  2 +-
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/lexy/action/base.hpp b/include/lexy/action/base.hpp
index 3e57a6f..3e527de 100644
--- a/include/lexy/action/base.hpp
+++ b/include/lexy/action/base.hpp
@@ -198,10 +198,10 @@ namespace lexy
 {
 constexpr void* no_parse_state = nullptr;
 
+// Parses the top-level production of a grammar or subgrammar.
 template <typename Handler, typename State, typename Production, typename Reader>
-constexpr auto _do_action(_pc<Handler, State, Production>& context, Reader& reader)
+constexpr auto _do_production(_pc<Handler, State, Production>& context, Reader& reader)
 {
-    context.on(parse_events::grammar_start{}, reader.position());
     context.on(parse_events::production_start{}, reader.position());
 
     // We parse whitespace, theen the rule, then finish.
@@ -211,15 +211,23 @@ constexpr auto _do_action(_pc<Handler, State, Production>& context, Reader& read
     auto rule_result = parser::parse(context, reader);
 
     if (rule_result)
-    {
         context.on(parse_events::production_finish{}, reader.position());
-        context.on(parse_events::grammar_finish{}, reader);
-    }
     else
-    {
         context.on(parse_events::production_cancel{}, reader.position());
+
+    return rule_result;
+}
+
+template <typename Handler, typename State, typename Production, typename Reader>
+constexpr auto _do_action(_pc<Handler, State, Production>& context, Reader& reader)
+{
+    context.on(parse_events::grammar_start{}, reader.position());
+
+    auto rule_result = _do_production(context, reader);
+    if (rule_result)
+        context.on(parse_events::grammar_finish{}, reader);
+    else
         context.on(parse_events::grammar_cancel{}, reader);
-    }
 
     return rule_result;
 }
diff --git a/include/lexy/dsl/subgrammar.hpp b/include/lexy/dsl/subgrammar.hpp
index 6a291df..926848c 100644
--- a/include/lexy/dsl/subgrammar.hpp
+++ b/include/lexy/dsl/subgrammar.hpp
@@ -42,7 +42,7 @@ using _subgrammar_for = _subgrammar<Production, typename Action::handler, typena
               Reader&                                                       reader)                \
     {                                                                                              \
         lexy::_pc<Handler, State, Production> context(control_block);                              \
-        auto                                  success = ::lexy::_do_action(context, reader);       \
+        auto                                  success = ::lexy::_do_production(context, reader);   \
         value                                         = LEXY_MOV(context.value);                   \
         return success;                                                                            \
     }
-- 
2.43.0


From b1879146cd9ef2636275c7c996321e3d8f83fd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 50/51] fix: parse tree of an empty match has a root without
 children

---
 include/lexy/action/parse_as_tree.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/lexy/action/parse_as_tree.hpp b/include/lexy/action/parse_as_tree.hpp
index 5c5bd9f..81adb6a 100644
--- a/include/lexy/action/parse_as_tree.hpp
+++ b/include/lexy/action/parse_as_tree.hpp
@@ -61,13 +61,13 @@ public:
 
         void on(_pth& handler, parse_events::production_finish ev, iterator pos)
         {
+            // Every production node (including the root) has at least one child.
+            if (handler._builder->current_child_count() == 0)
+                handler._builder->token(lexy::position_token_kind, _validate.production_begin(),
+                                        _validate.production_begin());
+
             if (--handler._depth > 0)
-            {
-                if (handler._builder->current_child_count() == 0)
-                    handler._builder->token(lexy::position_token_kind, _validate.production_begin(),
-                                            _validate.production_begin());
                 handler._builder->finish_production(LEXY_MOV(_marker));
-            }
 
             _validate.on(handler._validate, ev, pos);
         }
-- 
2.43.0


From 9f9222d5898e6b11734cb8331f3f814b85df0bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:26 +0000
Subject: [PATCH 51/51] fix: end of covering_lexeme() can be a default
 constructed iterator

For some iterators, such as the one of std::forward_list, the end of the input
compares equal to a default constructed one.
---
 include/lexy/parse_tree.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 553cf4d..e4a3fa2 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -1077,7 +1077,6 @@ public:
         }
         auto end = _pt_node(sibling).position();
 
-        LEXY_PRECONDITION(begin == end || end != typename Reader::iterator());
         return lexy::lexeme<Reader>(begin, end);
     }
 
-- 
2.43.0

