From 026112429af6613dfa7e83880ef023f75ba3439c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 01/46] fix: generator read past set_mapping_ for $ next to
 another $ or CR

---
 include/lexertl/generator.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 0de20b0..be765c2 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -335,8 +335,11 @@ namespace lexertl
             while (nl_iter_ != end_)
             {
                 node* node_ = *nl_iter_;
+                bool erased_ = false;
 
-                if (node_->end_state())
+                // Neither end states nor EOL have an entry in set_mapping_
+                if (node_->end_state() ||
+                    node_->token() == parser::eol_token())
                 {
                     ++nl_iter_;
                     continue;
@@ -351,8 +354,11 @@ namespace lexertl
 
                     for (auto cr_node_ : cr_followpos_)
                     {
-                        if (cr_node_->end_state())
+                        if (cr_node_->end_state() ||
+                            cr_node_->token() == parser::eol_token())
+                        {
                             continue;
+                        }
 
                         if (const auto& nl_set_ =
                             set_mapping_[cr_node_->token()];
@@ -376,14 +382,15 @@ namespace lexertl
                                 // but we should be erroring out anyway.
                                 nl_iter_ = followpos_.erase(nl_iter_);
                                 end_ = followpos_.end();
-                                continue;
+                                erased_ = true;
+                                break;
                             }
                         }
                     }
                 }
 
-                if (nl_iter_ == end_)
-                    break;
+                if (erased_)
+                    continue;
 
                 if (const auto& nl_set_ =
                     set_mapping_[node_->token()];
@@ -431,8 +438,11 @@ namespace lexertl
 
                 for (auto cr_node_ : cr_followpos_)
                 {
-                    if (cr_node_->end_state())
+                    if (cr_node_->end_state() ||
+                        cr_node_->token() == parser::eol_token())
+                    {
                         continue;
+                    }
 
                     const auto& cr_set_ = set_mapping_[cr_node_->token()];
 
-- 
2.43.0


From 6c1961baa699ae16b56e75ed09362598d239c882 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:34:00 +0000
Subject: [PATCH 02/46] fix: whole planes between the ends of a 24 bit range
 used the wrong bytes

---
 include/lexertl/parser/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index 127f0e9..ded1a8e 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -558,7 +558,7 @@ namespace lexertl::detail
 
                 if (second_msb_ > first_msb_ + 1)
                 {
-                    insert_range(first_mid_ + 1, second_mid_ - 1,
+                    insert_range(first_msb_ + 1, second_msb_ - 1,
                         0, 0xff,
                         0, 0xff, data_);
                 }
-- 
2.43.0


From 94e13f53664ffa3bdfe1407723aef4673d5b86e5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 03/46] fix: $ meeting rules that continue over a line end
 shared one EOL row

---
 include/lexertl/generator.hpp | 108 ++++++++++++----------------------
 1 file changed, 37 insertions(+), 71 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index be765c2..46833b7 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -18,6 +18,7 @@
 #include "runtime_error.hpp"
 #include "state_machine.hpp"
 
+#include <algorithm>
 #include <list>
 #include <memory>
 #include <set>
@@ -616,107 +617,72 @@ namespace lexertl
             {
                 observer_ptr<id_type> ptr_ = &dfa_.front() +
                     eol_ * dfa_alphabet_;
-                const id_type eol_state_ = ptr_[*state_index::eol];
                 const id_type cr_state_ =
                     ptr_[cr_id_ + *state_index::transitions];
                 const id_type nl_state_ =
                     ptr_[nl_id_ + *state_index::transitions];
 
-                if (cr_state_)
+                if (cr_state_ || nl_state_)
                 {
                     ptr_[*state_index::transitions + cr_id_] = 0;
-                    ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
-
-                    if (ptr_[*state_index::transitions + cr_id_] == 0)
-                    {
-                        ptr_[*state_index::transitions + cr_id_] = cr_state_;
-                    }
-                }
-
-                if (nl_state_)
-                {
                     ptr_[*state_index::transitions + nl_id_] = 0;
-                    ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
-
-                    if (ptr_[*state_index::transitions + nl_id_] == 0)
-                    {
-                        ptr_[*state_index::transitions + nl_id_] = nl_state_;
-                    }
+                    ptr_ = copy_eol_row(eol_, dfa_, dfa_alphabet_);
+                    ptr_[*state_index::transitions + cr_id_] = cr_state_;
+                    ptr_[*state_index::transitions + nl_id_] = nl_state_;
                 }
             }
         }
 
+        // The EOL row may be shared with other states, which must not
+        // inherit the transitions that follow this one.
+        static observer_ptr<id_type> copy_eol_row(const std::size_t index_,
+            typename internals::id_type_vector& dfa_,
+            const std::size_t dfa_alphabet_)
+        {
+            const std::size_t size_ = dfa_.size();
+
+            dfa_.resize(size_ + dfa_alphabet_, 0);
+
+            observer_ptr<id_type> ptr_ = &dfa_.front() +
+                index_ * dfa_alphabet_;
+            observer_ptr<const id_type> eol_ptr_ = &dfa_.front() +
+                ptr_[*state_index::eol] * dfa_alphabet_;
+
+            std::copy(eol_ptr_, eol_ptr_ + dfa_alphabet_,
+                &dfa_.front() + size_);
+            ptr_[*state_index::eol] =
+                static_cast<id_type>(size_ / dfa_alphabet_);
+            return &dfa_.front() + size_;
+        }
+
         // Compressed
         static void fix_clashes(const id_type_set& eol_set_,
             const id_type cr_id_, const id_type nl_id_, const id_type zero_id_,
             typename internals::id_type_vector& dfa_,
             const std::size_t dfa_alphabet_, const std::true_type&)
         {
-            std::size_t i_ = 0;
-
             for (const auto& eol_ : eol_set_)
             {
                 observer_ptr<id_type> ptr_ = &dfa_.front() +
                     eol_ * dfa_alphabet_;
-                const id_type eol_state_ = ptr_[*state_index::eol];
-                id_type cr_state_ = 0;
-                id_type nl_state_ = 0;
+                const id_type zero_state_ =
+                    ptr_[*state_index::transitions + zero_id_];
 
-                for (; i_ < (sm_traits::char_24_bit ? 2 : 1); ++i_)
+                for (std::size_t i_ = 0;
+                    i_ < (sm_traits::char_24_bit ? 2 : 1); ++i_)
                 {
                     ptr_ = &dfa_.front() +
                         ptr_[*state_index::transitions + zero_id_] *
                         dfa_alphabet_;
                 }
 
-                cr_state_ = ptr_[*state_index::transitions + cr_id_];
-
-                if (cr_state_)
-                {
-                    ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
-
-                    if (ptr_[*state_index::transitions + zero_id_] != 0)
-                        continue;
-
-                    ptr_[*state_index::transitions + zero_id_] =
-                        static_cast<id_type>(dfa_.size() / dfa_alphabet_);
-                    dfa_.resize(dfa_.size() + dfa_alphabet_, 0);
-
-                    for (i_ = 0; i_ < (sm_traits::char_24_bit ? 1 : 0); ++i_)
-                    {
-                        ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
-                        ptr_[*state_index::transitions + zero_id_] =
-                            static_cast<id_type>(dfa_.size() / dfa_alphabet_);
-                        dfa_.resize(dfa_.size() + dfa_alphabet_, 0);
-                    }
-
-                    ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
-                    ptr_[*state_index::transitions + cr_id_] = cr_state_;
-                }
-
-                nl_state_ = ptr_[*state_index::transitions + nl_id_];
-
-                if (nl_state_)
+                // Only CR or NL can follow EOL, so it can continue with the
+                // same intermediate rows as the original state.
+                if (ptr_[*state_index::transitions + cr_id_] ||
+                    ptr_[*state_index::transitions + nl_id_])
                 {
-                    ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
-
-                    if (ptr_[*state_index::transitions + zero_id_] != 0)
-                        continue;
-
-                    ptr_[*state_index::transitions + zero_id_] =
-                        static_cast<id_type>(dfa_.size() / dfa_alphabet_);
-                    dfa_.resize(dfa_.size() + dfa_alphabet_, 0);
-
-                    for (i_ = 0; i_ < (sm_traits::char_24_bit ? 1 : 0); ++i_)
-                    {
-                        ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
-                        ptr_[*state_index::transitions + zero_id_] =
-                            static_cast<id_type>(dfa_.size() / dfa_alphabet_);
-                        dfa_.resize(dfa_.size() + dfa_alphabet_, 0);
-                    }
-
-                    ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
-                    ptr_[*state_index::transitions + nl_id_] = nl_state_;
+                    ptr_ = copy_eol_row(eol_, dfa_, dfa_alphabet_);
+                    ptr_[*state_index::transitions + zero_id_] = zero_state_;
                 }
             }
         }
-- 
2.43.0


From 6b11320a9430edb1fc1d40ce96294e8ef3736d5b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:38:04 +0000
Subject: [PATCH 04/46] fix: $ in a wide rule set looked up a byte class that
 need not exist

---
 include/lexertl/parser/parser.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index ded1a8e..1ee503a 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -420,6 +420,12 @@ namespace lexertl::detail
                 nl_id_ = temp_nl_id_;
             }
 
+            if (sm_traits::compressed)
+            {
+                // The generator looks up this token when fixing clashes
+                lookup(string_token(0, 0));
+            }
+
             // store charset
             _node_ptr_vector.push_back(std::make_unique<leaf_node>
                 (eol_token(), greedy_repeat::yes));
-- 
2.43.0


From 68f036bd030d8fba84fa82ef3823daaaea4ac4da Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:39:03 +0000
Subject: [PATCH 05/46] fix: wide chars made of CR and LF bytes suppressed $
 rules

---
 include/lexertl/generator.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 46833b7..7ea1b6f 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -256,8 +256,13 @@ namespace lexertl
 
                 for (auto& equivset_ : equiv_list_)
                 {
-                    prune_eol_clashes(equivset_->_followpos, cr_id_, nl_id_,
-                        set_mapping_);
+                    // When compressed, cr_id_ and nl_id_ are only bytes of
+                    // chars (U+0D0A would be taken for CR LF).
+                    if (!sm_traits::compressed)
+                    {
+                        prune_eol_clashes(equivset_->_followpos, cr_id_,
+                            nl_id_, set_mapping_);
+                    }
 
                     const id_type transition_ =
                         closure(equivset_->_followpos, seen_sets_,
-- 
2.43.0


From e433a6356cd416a521961b09b98de68480c6299d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:54:46 +0000
Subject: [PATCH 06/46] fix: a read that threw on a no match left results bol
 changed

---
 include/lexertl/lookup.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/lookup.hpp b/include/lexertl/lookup.hpp
index 2df4374..8575124 100644
--- a/include/lexertl/lookup.hpp
+++ b/include/lexertl/lookup.hpp
@@ -456,13 +456,16 @@ namespace lexertl
             }
             else
             {
+                // Reading or advancing can throw, so update bol last
+                const bool bol_ = *end_token_ == '\n';
+
                 results_.second = end_token_;
-                results_.bol = *results_.second == '\n';
                 results_.first = results_.second;
                 // No match causes char to be skipped
                 inc_end(results_,
                     std::integral_constant<bool,
                     (flags & +feature_bit::advance) != 0>());
+                results_.bol = bol_;
                 lu_state_._id = results::npos();
                 lu_state_._uid = results::npos();
             }
-- 
2.43.0


From ff6c4345308b9134024ec3fdb093fb0d3681f535 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:09:15 +0000
Subject: [PATCH 07/46] fix: stream iterator buffer moved with overlapping
 memcpy, lost place when a read failed

---
 include/lexertl/stream_shared_iterator.hpp | 66 +++++-----------------
 1 file changed, 13 insertions(+), 53 deletions(-)

diff --git a/include/lexertl/stream_shared_iterator.hpp b/include/lexertl/stream_shared_iterator.hpp
index b91e5d5..3c78b15 100644
--- a/include/lexertl/stream_shared_iterator.hpp
+++ b/include/lexertl/stream_shared_iterator.hpp
@@ -9,6 +9,7 @@
 
 #include "runtime_error.hpp"
 
+#include <algorithm>
 #include <istream>
 #include <iterator>
 #include <vector>
@@ -166,10 +167,10 @@ namespace lexertl
 
             shared(istream& stream_, const std::size_t buff_size_,
                 const std::size_t increment_) :
-                _increment(increment_),
-                _stream(stream_)
+                _stream(stream_),
+                _increment(increment_ ? increment_ : 1)
             {
-                _buffer.resize(buff_size_);
+                _buffer.resize(buff_size_ ? buff_size_ : 1);
                 _stream.read(&_buffer.front(), _buffer.size());
                 _len = static_cast<std::size_t>(_stream.gcount());
             }
@@ -184,43 +185,21 @@ namespace lexertl
                 if (lowest_ == 0)
                 {
                     // Resize buffer
-                    const std::size_t old_size_ = _buffer.size();
-                    const std::size_t new_size_ = old_size_ + _increment;
-
-                    _buffer.resize(new_size_);
-                    _stream.read(&_buffer.front() + old_size_, _increment);
-                    read_ = static_cast<std::size_t>(_stream.gcount());
-
-                    if (read_)
-                    {
-                        read_ += old_size_;
-                        _len = read_;
-                    }
+                    if (_len == _buffer.size())
+                        _buffer.resize(_len + _increment);
                 }
                 else
                 {
-                    // Some systems have memcpy in namespace std
-                    using namespace std;
-                    const size_t start_ = _buffer.size() - lowest_;
-                    const size_t len_ = _buffer.size() - start_;
-
-                    memcpy(&_buffer.front(), &_buffer[lowest_], start_ *
-                        sizeof(char_type));
-                    _stream.read(&_buffer.front() + start_, len_);
-                    read_ = static_cast<size_t>(_stream.gcount());
+                    // The ranges can overlap
+                    std::copy(_buffer.begin() + lowest_,
+                        _buffer.begin() + _len, _buffer.begin());
+                    _len -= lowest_;
                     subtract(lowest_);
-
-                    if (read_)
-                    {
-                        read_ += start_;
-                        _len = read_;
-                    }
-                    else
-                    {
-                        _len = highest();
-                    }
                 }
 
+                _stream.read(&_buffer.front() + _len, _buffer.size() - _len);
+                read_ = static_cast<std::size_t>(_stream.gcount());
+                _len += read_;
                 return read_ != 0;
             }
 
@@ -256,25 +235,6 @@ namespace lexertl
                 return lowest_;
             }
 
-            std::size_t highest() const
-            {
-                std::size_t highest_ = 0;
-                auto iter_ = _clients.cbegin();
-                auto end_ = _clients.cend();
-
-                for (; iter_ != end_; ++iter_)
-                {
-                    const basic_stream_shared_iterator* ptr_ = *iter_;
-
-                    if (ptr_->_index != npos() && ptr_->_index > highest_)
-                    {
-                        highest_ = ptr_->_index;
-                    }
-                }
-
-                return highest_;
-            }
-
             void subtract(const std::size_t lowest_)
             {
                 auto iter_ = _clients.begin();
-- 
2.43.0


From 8a2a076dc1b449d538d0cd15fd5be35572edaf4e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:09:28 +0000
Subject: [PATCH 08/46] fix: stream iterator assignment leaked or lost its
 place, empty stream and first iterator compared wrongly

---
 include/lexertl/stream_shared_iterator.hpp | 116 +++++++++------------
 1 file changed, 51 insertions(+), 65 deletions(-)

diff --git a/include/lexertl/stream_shared_iterator.hpp b/include/lexertl/stream_shared_iterator.hpp
index 3c78b15..031397f 100644
--- a/include/lexertl/stream_shared_iterator.hpp
+++ b/include/lexertl/stream_shared_iterator.hpp
@@ -12,6 +12,7 @@
 #include <algorithm>
 #include <istream>
 #include <iterator>
+#include <memory>
 #include <vector>
 
 namespace lexertl
@@ -34,41 +35,25 @@ namespace lexertl
             const std::size_t increment_ = 1024) :
             _master(true)
         {
-            // Safe to call potentially throwing new now.
-            _shared = new shared(stream_, buff_size_, increment_);
-            ++_shared->_ref_count;
-            _shared->_clients.push_back(this);
+            auto shared_ = std::make_unique<shared>(stream_, buff_size_,
+                increment_);
+
+            shared_->attach(this);
+            _shared = shared_.release();
         }
 
         basic_stream_shared_iterator(const basic_stream_shared_iterator& rhs_) :
-            _index(rhs_._master ? rhs_._shared->lowest() : rhs_._index),
+            _index(rhs_.index()),
             _shared(rhs_._shared)
         {
             if (_shared)
-            {
-                // New copy of an iterator.
-                // The assumption is that any copy must be live
-                // even if the rhs is not (otherwise we will never
-                // have a record of the start of the current range!)
-                ++_shared->_ref_count;
-                _shared->_clients.push_back(this);
-                _live = true;
-            }
+                _shared->attach(this);
         }
 
         ~basic_stream_shared_iterator()
         {
             if (_shared)
-            {
-                --_shared->_ref_count;
-                _shared->erase(this);
-
-                if (_shared->_ref_count == 0)
-                {
-                    delete _shared;
-                    _shared = nullptr;
-                }
-            }
+                _shared->detach(this);
         }
 
         basic_stream_shared_iterator& operator =
@@ -76,37 +61,22 @@ namespace lexertl
         {
             if (this != &rhs_)
             {
-                _master = false;
-                _index = rhs_._master ? rhs_._shared->lowest() : rhs_._index;
+                const std::size_t index_ = rhs_.index();
 
-                if (!_live && !rhs_._live)
+                if (_shared != rhs_._shared)
                 {
+                    // Attach first as that can throw
                     if (rhs_._shared)
-                    {
-                        ++rhs_._shared->_ref_count;
-                    }
-                }
-                else if (!_live && rhs_._live)
-                {
-                    rhs_._shared->_clients.push_back(this);
+                        rhs_._shared->attach(this);
 
-                    if (!_shared)
-                    {
-                        ++rhs_._shared->_ref_count;
-                    }
-                }
-                else if (_live && !rhs_._live)
-                {
-                    _shared->erase(this);
+                    if (_shared)
+                        _shared->detach(this);
 
-                    if (!rhs_._shared)
-                    {
-                        --_shared->_ref_count;
-                    }
+                    _shared = rhs_._shared;
                 }
 
-                _live = rhs_._live;
-                _shared = rhs_._shared;
+                _master = false;
+                _index = index_;
             }
 
             return *this;
@@ -115,11 +85,12 @@ namespace lexertl
         friend bool operator ==(const basic_stream_shared_iterator& lhs_,
             const basic_stream_shared_iterator& rhs_)
         {
-            return lhs_._index == rhs_._index &&
+            const std::size_t lhs_index_ = lhs_.index();
+
+            return lhs_index_ == rhs_.index() &&
                 (lhs_._shared == rhs_._shared ||
-                    (lhs_._index == shared::npos() ||
-                        rhs_._index == shared::npos()) &&
-                    (!lhs_._shared || !rhs_._shared));
+                    (lhs_index_ == shared::npos() &&
+                    (!lhs_._shared || !rhs_._shared)));
         }
 
         friend bool operator !=(const basic_stream_shared_iterator& lhs_,
@@ -137,7 +108,6 @@ namespace lexertl
         basic_stream_shared_iterator& operator ++()
         {
             check_master();
-            ++_index;
             update_state();
             return *this;
         }
@@ -147,7 +117,6 @@ namespace lexertl
             basic_stream_shared_iterator iter_ = *this;
 
             check_master();
-            ++_index;
             update_state();
             return iter_;
         }
@@ -156,7 +125,6 @@ namespace lexertl
         class shared
         {
         public:
-            std::size_t _ref_count = 0;
             using char_vector = std::vector<char_type>;
             using iter_list = std::vector<basic_stream_shared_iterator*>;
             istream& _stream;
@@ -203,12 +171,18 @@ namespace lexertl
                 return read_ != 0;
             }
 
-            void erase(basic_stream_shared_iterator* ptr_)
+            void attach(basic_stream_shared_iterator* ptr_)
+            {
+                _clients.push_back(ptr_);
+            }
+
+            void detach(basic_stream_shared_iterator* ptr_)
             {
-                auto iter_ = std::find(_clients.begin(), _clients.end(), ptr_);
+                _clients.erase(std::find(_clients.begin(), _clients.end(),
+                    ptr_));
 
-                if (iter_ != _clients.end())
-                    _clients.erase(iter_);
+                if (_clients.empty())
+                    delete this;
             }
 
             std::size_t lowest() const
@@ -258,10 +232,20 @@ namespace lexertl
         };
 
         bool _master = false;
-        bool _live = false;
         std::size_t _index = shared::npos();
         shared* _shared = nullptr;
 
+        // Where a copy of this iterator would start
+        std::size_t index() const
+        {
+            if (!_master)
+                return _index;
+
+            const std::size_t lowest_ = _shared->lowest();
+
+            return lowest_ < _shared->_len ? lowest_ : shared::npos();
+        }
+
         void check_master()
         {
             if (!_shared)
@@ -272,20 +256,22 @@ namespace lexertl
 
             if (_master)
             {
+                _index = index();
                 _master = false;
-                _live = true;
-                _index = _shared->lowest();
             }
         }
 
         void update_state()
         {
-            if (_index >= _shared->_len &&
+            // Reading can throw, so move on last
+            if (_index + 1 >= _shared->_len &&
                 !_shared->reload_buffer())
             {
-                _shared->erase(this);
                 _index = shared::npos();
-                _live = false;
+            }
+            else
+            {
+                ++_index;
             }
         }
     };
-- 
2.43.0


From 6f4c02f1f505cf6861e4b6612eb1ada5f2b179a5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:23:14 +0000
Subject: [PATCH 09/46] fix: memory_file unmapped too little, kept the
 descriptor of a failed open and closed descriptors it did not own

---
 include/lexertl/memory_file.hpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/lexertl/memory_file.hpp b/include/lexertl/memory_file.hpp
index d1c7768..799a7e2 100644
--- a/include/lexertl/memory_file.hpp
+++ b/include/lexertl/memory_file.hpp
@@ -46,10 +46,7 @@ namespace lexertl
 
         void open(const char* pathname_)
         {
-            if (_data)
-            {
-                close();
-            }
+            close();
 
 #ifdef _WIN32
             _fh = ::CreateFileA(pathname_, GENERIC_READ, FILE_SHARE_READ,
@@ -93,9 +90,13 @@ namespace lexertl
                     }
                     else
                     {
-                        _size = sbuf_.st_size / sizeof(char_type);
+                        _length = sbuf_.st_size;
+                        _size = _length / sizeof(char_type);
                     }
                 }
+
+                if (!_data)
+                    close();
             }
 #endif
         }
@@ -117,7 +118,8 @@ namespace lexertl
 #ifdef _WIN32
                 ::UnmapViewOfFile(_data);
 #else
-                ::munmap(const_cast<char_type*>(_data), _size);
+                ::munmap(const_cast<char_type*>(_data), _length);
+                _length = 0;
 #endif
                 _data = nullptr;
                 _size = 0;
@@ -134,10 +136,10 @@ namespace lexertl
 
             _fh = nullptr;
 #else
-            if (_fh)
+            if (_fh > -1)
                 ::close(_fh);
 
-            _fh = 0;
+            _fh = -1;
 #endif
         }
 
@@ -148,7 +150,9 @@ namespace lexertl
         HANDLE _fh = nullptr;
         HANDLE _fmh = nullptr;
 #else
-        int _fh = 0;
+        // In bytes, as mapped
+        std::size_t _length = 0;
+        int _fh = -1;
 #endif
     };
 
-- 
2.43.0


From 7cbb52e00536050fdf75c3d289e452b54dfbeac4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:30:31 +0000
Subject: [PATCH 10/46] fix: save and load missed failures, lost 8 bit ids and
 could not save wide machines to narrow streams

---
 include/lexertl/serialise.hpp | 98 ++++++++++++++++++++---------------
 1 file changed, 57 insertions(+), 41 deletions(-)

diff --git a/include/lexertl/serialise.hpp b/include/lexertl/serialise.hpp
index 10ebb17..ca4a13b 100644
--- a/include/lexertl/serialise.hpp
+++ b/include/lexertl/serialise.hpp
@@ -10,7 +10,7 @@
 #include "runtime_error.hpp"
 #include "state_machine.hpp"
 
-#include <sstream>
+#include <limits>
 #include <string>
 #include <vector>
 
@@ -18,51 +18,69 @@ namespace lexertl
 {
     namespace detail
     {
-        template<typename char_type, typename id_type, class stream>
+        // Not for streaming directly, as id_type can be a character type
+        inline std::string num_to_str(const std::size_t num_)
+        {
+            return std::to_string(num_);
+        }
+
+        template<typename id_type, class stream>
         void output_vec(const std::vector<id_type>& vec_, stream& stream_)
         {
-            std::basic_ostringstream<char_type> ss_;
-            std::basic_string<char_type> str_;
+            std::string str_;
             std::size_t line_len_ = 0;
 
             stream_ << vec_.size() << '\n';
 
             for (const id_type l_ : vec_)
             {
-                ss_ << l_;
-                str_ = ss_.str();
+                str_ = num_to_str(l_);
 
                 if (line_len_ + str_.size() + 1 > 80)
                 {
-                    stream_ << '\n' << str_ << ' ';
+                    stream_ << '\n' << str_.c_str() << ' ';
                     line_len_ = str_.size() + 1;
                 }
                 else
                 {
-                    stream_ << str_ << ' ';
+                    stream_ << str_.c_str() << ' ';
                     line_len_ += str_.size() + 1;
                 }
-
-                ss_.str("");
             }
 
             stream_ << '\n';
         }
 
-        template<typename char_type, class stream, typename id_type>
-        void input_vec(stream& stream_, std::vector<id_type>& vec_)
+        template<typename num_type, class stream>
+        num_type input_num(stream& stream_)
         {
             std::size_t num_ = 0;
 
-            stream_>> num_;
-            vec_.reserve(num_);
+            stream_ >> num_;
+
+            // save() writes whitespace after every number, so a number
+            // without is damaged
+            const auto next_ = stream_.get();
+
+            if (!stream_ || (next_ != ' ' && next_ != '\n' && next_ != '\r'))
+                throw runtime_error("Unexpected end of stream or bad number "
+                    "in lexertl::load().");
+
+            if (num_ > std::numeric_limits<num_type>::max())
+                throw runtime_error("Number out of range in lexertl::load().");
+
+            return static_cast<num_type>(num_);
+        }
 
+        template<class stream, typename id_type>
+        void input_vec(stream& stream_, std::vector<id_type>& vec_)
+        {
+            const auto num_ = input_num<std::size_t>(stream_);
+
+            // The count can be damaged, so don't reserve memory for it
             for (std::size_t idx_ = 0; idx_ < num_; ++idx_)
             {
-                std::size_t id_ = 0;
-
-                stream_ >> id_;
-                vec_.push_back(static_cast<id_type>(id_));
+                vec_.push_back(input_num<id_type>(stream_));
             }
         }
     }
@@ -78,21 +96,21 @@ namespace lexertl
         stream_ << 1 << '\n';
         stream_ << sizeof(char_type) << '\n';
         stream_ << sizeof(id_type) << '\n';
-        stream_ << internals_._eoi << '\n';
+        stream_ << detail::num_to_str(internals_._eoi).c_str() << '\n';
         stream_ << internals_._lookup.size() << '\n';
 
         for (const auto& vec_ : internals_._lookup)
         {
-            detail::output_vec<char_type>(vec_, stream_);
+            detail::output_vec(vec_, stream_);
         }
 
-        detail::output_vec<char_type>(internals_._dfa_alphabet, stream_);
-        stream_ << internals_._features << '\n';
+        detail::output_vec(internals_._dfa_alphabet, stream_);
+        stream_ << detail::num_to_str(internals_._features).c_str() << '\n';
         stream_ << internals_._dfa.size() << '\n';
 
         for (const auto& vec_ : internals_._dfa)
         {
-            detail::output_vec<char_type>(vec_, stream_);
+            detail::output_vec(vec_, stream_);
         }
     }
 
@@ -100,44 +118,42 @@ namespace lexertl
     void load(stream& stream_, basic_state_machine<char_type, id_type>& sm_)
     {
         using internals = detail::basic_internals<id_type>;
-        internals& internals_ = sm_.data();
+        internals internals_;
         std::size_t num_ = 0;
 
-        internals_.clear();
         // Version
-        stream_ >> num_;
-        // sizeof(char_type)
-        stream_ >> num_;
+        if (detail::input_num<std::size_t>(stream_) != 1)
+            throw runtime_error("Unknown version in lexertl::load().");
 
-        if (num_ != sizeof(char_type))
+        // sizeof(char_type)
+        if (detail::input_num<std::size_t>(stream_) != sizeof(char_type))
             throw runtime_error("char_type mismatch in lexertl::load().");
 
         // sizeof(id_type)
-        stream_ >> num_;
-
-        if (num_ != sizeof(id_type))
+        if (detail::input_num<std::size_t>(stream_) != sizeof(id_type))
             throw runtime_error("id_type mismatch in lexertl::load().");
 
-        stream_ >> internals_._eoi;
-        stream_ >> num_;
-        internals_._lookup.reserve(num_);
+        internals_._eoi = detail::input_num<id_type>(stream_);
+        num_ = detail::input_num<std::size_t>(stream_);
 
         for (std::size_t idx_ = 0; idx_ < num_; ++idx_)
         {
             internals_._lookup.emplace_back();
-            detail::input_vec<char_type>(stream_, internals_._lookup.back());
+            detail::input_vec(stream_, internals_._lookup.back());
         }
 
-        detail::input_vec<char_type>(stream_, internals_._dfa_alphabet);
-        stream_ >> internals_._features;
-        stream_ >> num_;
-        internals_._dfa.reserve(num_);
+        detail::input_vec(stream_, internals_._dfa_alphabet);
+        internals_._features = detail::input_num<id_type>(stream_);
+        num_ = detail::input_num<std::size_t>(stream_);
 
         for (std::size_t idx_ = 0; idx_ < num_; ++idx_)
         {
             internals_._dfa.emplace_back();
-            detail::input_vec<char_type>(stream_, internals_._dfa.back());
+            detail::input_vec(stream_, internals_._dfa.back());
         }
+
+        // Keep the old contents should anything above throw
+        sm_.data().swap(internals_);
     }
 }
 
-- 
2.43.0


From 8ffa9f654323edf9bbe8df5f04f45729bb8cca8b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:40:51 +0000
Subject: [PATCH 11/46] fix: failed rule, macro and state calls left traces in
 the rules

A failed or self-referring macro definition left an empty macro behind,
running out of memory left the vectors of a lexer state out of step or the
regex string cut short, and a rule for several states could be added to
some of them only.  ^ and $ of a split rule were looked up in the first or
last part only.
---
 include/lexertl/rules.hpp | 240 +++++++++++++++++++++++++-------------
 1 file changed, 162 insertions(+), 78 deletions(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index b0a5749..97a824e 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -84,16 +84,18 @@ namespace lexertl
 
         void clear()
         {
-            _statemap.clear();
+            // INITIAL always exists, so keep it (this cannot fail)
+            for (auto iter_ = _statemap.begin(); iter_ != _statemap.end(); )
+            {
+                if (iter_->second == 0)
+                    ++iter_;
+                else
+                    iter_ = _statemap.erase(iter_);
+            }
+
             _macro_map.clear();
-            _regexes.clear();
-            _regex_strings.clear();
-            _features.clear();
-            _ids.clear();
-            _user_ids.clear();
-            _next_dfas.clear();
-            _pushes.clear();
-            _pops.clear();
+            truncate_states(1);
+            clear(0);
 #ifdef _WIN32
             _flags = *regex_flags::dot_not_cr_lf;
 #else
@@ -101,7 +103,6 @@ namespace lexertl
 #endif
             _locale = std::locale();
             _lexer_state_names.clear();
-            push_state(initial());
         }
 
         void clear(const id_type dfa_)
@@ -197,9 +198,22 @@ namespace lexertl
         {
             validate(name_);
 
-            if (_statemap.insert(string_id_type_pair(name_,
-                static_cast<id_type>(_statemap.size()))).second)
+            const auto size_ = _statemap.size();
+            const auto pair_ = _statemap.insert(string_id_type_pair(name_,
+                static_cast<id_type>(size_)));
+
+            if (!pair_.second)
+                return pair_.first->second;
+
+            try
             {
+                if (size_ >= npos())
+                {
+                    // Overflow
+                    throw runtime_error("The id_type you have chosen cannot "
+                        "hold this many lexer start states.");
+                }
+
                 _regexes.emplace_back();
                 _regex_strings.emplace_back();
                 _features.push_back(0);
@@ -214,16 +228,11 @@ namespace lexertl
                     _lexer_state_names.push_back(name_);
                 }
             }
-            else
+            catch (...)
             {
-                return _statemap.find(name_)->second;
-            }
-
-            if (_next_dfas.size() > npos())
-            {
-                // Overflow
-                throw runtime_error("The id_type you have chosen cannot hold "
-                    "this many lexer start states.");
+                _statemap.erase(pair_.first);
+                truncate_states(size_);
+                throw;
             }
 
             // Initial is not stored, so no need to - 1.
@@ -251,12 +260,11 @@ namespace lexertl
 
             if (iter_ == _macro_map.end())
             {
-                auto pair_ =
-                    _macro_map.insert(macro_pair(name_, token_vector()));
                 auto tokens_vec_ = tokenise(regex_, npos(), name_);
 
                 // There can only be one token_vector for a macro
-                pair_.first->second = std::move(tokens_vec_.back());
+                _macro_map.insert(macro_pair(name_,
+                    std::move(tokens_vec_.back())));
             }
             else
             {
@@ -295,21 +303,35 @@ namespace lexertl
             std::ostringstream ss_;
 
             check_for_invalid_id(id_);
+            // Do not record part of a regex if memory runs out
+            ss_.exceptions(std::ios_base::badbit);
             narrow(regex_.c_str(), ss_);
 
             auto tokens_vec_ = tokenise(regex_, id_, nullptr);
+            const id_type features_ = line_features(tokens_vec_);
+            const std::size_t size_ = _regexes.front().size();
 
-            if (tokens_vec_.front()[1]._type == detail::token_type::BOL)
+            try
             {
-                _features.front() |= *feature_bit::bol;
+                for (auto& tokens_ : tokens_vec_)
+                {
+                    _regex_strings.front().push_back(ss_.str());
+                    _regexes.front().push_back(std::move(tokens_));
+                    _ids.front().push_back(id_);
+                    _user_ids.front().push_back(user_id_);
+                    _next_dfas.front().push_back(0);
+                    _pushes.front().push_back(npos());
+                    _pops.front().push_back(false);
+                }
             }
-
-            if (tokens_vec_.back()[tokens_vec_.back().size() - 2]._type ==
-                detail::token_type::EOL)
+            catch (...)
             {
-                _features.front() |= *feature_bit::eol;
+                truncate_rules(0, size_);
+                throw;
             }
 
+            _features.front() |= features_;
+
             if (id_ == skip())
             {
                 _features.front() |= *feature_bit::skip;
@@ -318,17 +340,6 @@ namespace lexertl
             {
                 _features.front() |= *feature_bit::again;
             }
-
-            for (auto& tokens_ : tokens_vec_)
-            {
-                _regex_strings.front().push_back(ss_.str());
-                _regexes.front().push_back(std::move(tokens_));
-                _ids.front().push_back(id_);
-                _user_ids.front().push_back(user_id_);
-                _next_dfas.front().push_back(0);
-                _pushes.front().push_back(npos());
-                _pops.front().push_back(false);
-            }
         }
 
         // Add rule with no id
@@ -385,7 +396,10 @@ namespace lexertl
 
         void reverse()
         {
-            for (auto& state_ : _regexes)
+            auto regexes_ = _regexes;
+            auto macro_map_ = _macro_map;
+
+            for (auto& state_ : regexes_)
             {
                 for (auto& regex_ : state_)
                 {
@@ -393,10 +407,13 @@ namespace lexertl
                 }
             }
 
-            for (auto& pair_ : _macro_map)
+            for (auto& pair_ : macro_map_)
             {
                 reverse(pair_.second);
             }
+
+            _regexes.swap(regexes_);
+            _macro_map.swap(macro_map_);
         }
 
         const string_id_type_map& statemap() const
@@ -502,6 +519,58 @@ namespace lexertl
         std::locale _locale;
         string_vector _lexer_state_names;
 
+        // Take back what a failed push_state() has added
+        void truncate_states(const std::size_t size_)
+        {
+            truncate(_regexes, size_);
+            truncate(_regex_strings, size_);
+            truncate(_features, size_);
+            truncate(_ids, size_);
+            truncate(_user_ids, size_);
+            truncate(_next_dfas, size_);
+            truncate(_pushes, size_);
+            truncate(_pops, size_);
+        }
+
+        // Take back what a failed push() has added
+        void truncate_rules(const id_type dfa_, const std::size_t size_)
+        {
+            truncate(_regexes[dfa_], size_);
+            truncate(_regex_strings[dfa_], size_);
+            truncate(_ids[dfa_], size_);
+            truncate(_user_ids[dfa_], size_);
+            truncate(_next_dfas[dfa_], size_);
+            truncate(_pushes[dfa_], size_);
+            truncate(_pops[dfa_], size_);
+        }
+
+        template<typename vector>
+        void truncate(vector& vec_, const std::size_t size_)
+        {
+            if (vec_.size() > size_)
+                vec_.erase(vec_.begin() + size_, vec_.end());
+        }
+
+        // A rule can have been split into several regexes
+        id_type line_features(const token_vector_vector& tokens_vec_) const
+        {
+            id_type features_ = 0;
+
+            for (const auto& tokens_ : tokens_vec_)
+            {
+                if (tokens_[1]._type == detail::token_type::BOL)
+                    features_ |= *feature_bit::bol;
+
+                if (tokens_[tokens_.size() - 2]._type ==
+                    detail::token_type::EOL)
+                {
+                    features_ |= *feature_bit::eol;
+                }
+            }
+
+            return features_;
+        }
+
         [[nodiscard]] token_vector_vector tokenise(const string& regex_,
             const id_type id_, const rules_char_type* name_)
         {
@@ -1193,26 +1262,63 @@ namespace lexertl
                 }
             }
 
-            for (std::size_t i_ = 0, size_ = next_dfas_.size();
-                i_ < size_; ++i_)
-            {
-                const id_type curr_ = next_dfas_[i_];
-                auto tokens_vec_ = tokenise(regex_, id_, 0);
-                std::ostringstream ss_;
+            if (next_dfas_.empty())
+                return;
 
-                narrow(regex_.c_str(), ss_);
+            const auto tokens_vec_ = tokenise(regex_, id_, nullptr);
+            const id_type features_ = line_features(tokens_vec_);
+            std::vector<std::size_t> sizes_;
+            std::ostringstream ss_;
+
+            ss_.exceptions(std::ios_base::badbit);
+            narrow(regex_.c_str(), ss_);
 
-                if (tokens_vec_.back()[1]._type == detail::token_type::BOL)
+            for (const id_type curr_ : next_dfas_)
+            {
+                sizes_.push_back(_regexes[curr_].size());
+            }
+
+            try
+            {
+                for (const id_type curr_ : next_dfas_)
                 {
-                    _features[curr_] |= *feature_bit::bol;
-                }
+                    for (const auto& tokens_ : tokens_vec_)
+                    {
+                        _regex_strings[curr_].push_back(ss_.str());
+                        _regexes[curr_].push_back(tokens_);
+                        _ids[curr_].push_back(id_);
+                        _user_ids[curr_].push_back(user_id_);
+                        _next_dfas[curr_].push_back(dot_ ? curr_ : new_dfa_id_);
+
+                        id_ty push_id_ = npos();
+
+                        if (push_)
+                        {
+                            if (push_dfa_)
+                                push_id_ = push_dfa_id_;
+                            else
+                                push_id_ = curr_;
+                        }
 
-                if (tokens_vec_.back()[tokens_vec_.back().size() - 2].
-                    _type == detail::token_type::EOL)
+                        _pushes[curr_].push_back(push_id_);
+                        _pops[curr_].push_back(pop_);
+                    }
+                }
+            }
+            catch (...)
+            {
+                for (std::size_t i_ = 0; i_ < sizes_.size(); ++i_)
                 {
-                    _features[curr_] |= *feature_bit::eol;
+                    truncate_rules(next_dfas_[i_], sizes_[i_]);
                 }
 
+                throw;
+            }
+
+            for (const id_type curr_ : next_dfas_)
+            {
+                _features[curr_] |= features_;
+
                 if (id_ == skip())
                 {
                     _features[curr_] |= *feature_bit::skip;
@@ -1226,28 +1332,6 @@ namespace lexertl
                 {
                     _features[curr_] |= *feature_bit::recursive;
                 }
-
-                for (auto& tokens_ : tokens_vec_)
-                {
-                    _regex_strings[curr_].push_back(ss_.str());
-                    _regexes[curr_].push_back(std::move(tokens_));
-                    _ids[curr_].push_back(id_);
-                    _user_ids[curr_].push_back(user_id_);
-                    _next_dfas[curr_].push_back(dot_ ? curr_ : new_dfa_id_);
-
-                    id_ty push_id_ = npos();
-
-                    if (push_)
-                    {
-                        if (push_dfa_)
-                            push_id_ = push_dfa_id_;
-                        else
-                            push_id_ = curr_;
-                    }
-
-                    _pushes[curr_].push_back(push_id_);
-                    _pops[curr_].push_back(pop_);
-                }
             }
         }
 
-- 
2.43.0


From db7617b0c088dc1a42f31a6cc7b165b306823a1c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:42:39 +0000
Subject: [PATCH 12/46] fix: generator read past set_mapping_ for a repeated ^

---
 include/lexertl/generator.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 7ea1b6f..7e5ad65 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -318,7 +318,7 @@ namespace lexertl
                         prune_NL(iter_, end_, followpos_, cr_id_, nl_id_,
                             set_mapping_);
                     }
-                    else
+                    else if (node_->token() != parser::bol_token())
                     {
                         prune_eol(iter_, end_, followpos_, cr_id_, nl_id_,
                             set_mapping_);
@@ -343,8 +343,10 @@ namespace lexertl
                 node* node_ = *nl_iter_;
                 bool erased_ = false;
 
-                // Neither end states nor EOL have an entry in set_mapping_
+                // Neither end states, BOL nor EOL have an entry in
+                // set_mapping_
                 if (node_->end_state() ||
+                    node_->token() == parser::bol_token() ||
                     node_->token() == parser::eol_token())
                 {
                     ++nl_iter_;
@@ -361,6 +363,7 @@ namespace lexertl
                     for (auto cr_node_ : cr_followpos_)
                     {
                         if (cr_node_->end_state() ||
+                            cr_node_->token() == parser::bol_token() ||
                             cr_node_->token() == parser::eol_token())
                         {
                             continue;
@@ -445,6 +448,7 @@ namespace lexertl
                 for (auto cr_node_ : cr_followpos_)
                 {
                     if (cr_node_->end_state() ||
+                        cr_node_->token() == parser::bol_token() ||
                         cr_node_->token() == parser::eol_token())
                     {
                         continue;
-- 
2.43.0


From 823b6087319cedd0548380e3de0e70a317346010 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:44:26 +0000
Subject: [PATCH 13/46] fix: char_state_machine::minimise lost ids, pushes and
 pops

---
 include/lexertl/state_machine.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/state_machine.hpp b/include/lexertl/state_machine.hpp
index 1c1ffa5..c8d0db5 100644
--- a/include/lexertl/state_machine.hpp
+++ b/include/lexertl/state_machine.hpp
@@ -473,8 +473,10 @@ namespace lexertl
                     }
 
                     new_ptr_->_end_state = ptr_->_end_state;
-                    new_ptr_->_id = ptr_->_end_state;
+                    new_ptr_->_push_pop_dfa = ptr_->_push_pop_dfa;
+                    new_ptr_->_id = ptr_->_id;
                     new_ptr_->_user_id = ptr_->_user_id;
+                    new_ptr_->_push_dfa = ptr_->_push_dfa;
                     new_ptr_->_next_dfa = ptr_->_next_dfa;
 
                     if (ptr_->_eol_index != npos())
-- 
2.43.0


From a550820fbb48210f3c392c84e7af7293e84739d9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:44:26 +0000
Subject: [PATCH 14/46] fix: sm_to_csm added to what the target held

---
 include/lexertl/sm_to_csm.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/sm_to_csm.hpp b/include/lexertl/sm_to_csm.hpp
index 2cb9a2c..27c3826 100644
--- a/include/lexertl/sm_to_csm.hpp
+++ b/include/lexertl/sm_to_csm.hpp
@@ -25,6 +25,8 @@ namespace lexertl
             typename char_state_machine::string_token_vector;
         const internals& internals_ = sm_.data();
         const std::size_t dfas_ = internals_._dfa.size();
+        // Strong exception guarantee, as basic_generator::build()
+        char_state_machine temp_csm_;
 
         for (id_type i_ = 0; i_ < dfas_; ++i_)
         {
@@ -47,8 +49,10 @@ namespace lexertl
                 }
             }
 
-            csm_.append(token_vector_, internals_, i_);
+            temp_csm_.append(token_vector_, internals_, i_);
         }
+
+        csm_.swap(temp_csm_);
     }
 }
 
-- 
2.43.0


From 69a451256167be06ddeb68d73b68f76dddf38e43 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:44:26 +0000
Subject: [PATCH 15/46] fix: failed assignment left a machine with tables of
 two machines

---
 include/lexertl/internals.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/lexertl/internals.hpp b/include/lexertl/internals.hpp
index 95cf4d8..b40e112 100644
--- a/include/lexertl/internals.hpp
+++ b/include/lexertl/internals.hpp
@@ -25,6 +25,20 @@ namespace lexertl::detail
         id_type _features = 0;
         id_type_vector_vector _dfa;
 
+        basic_internals() = default;
+        basic_internals(const basic_internals&) = default;
+        basic_internals(basic_internals&&) = default;
+        basic_internals& operator =(basic_internals&&) = default;
+
+        basic_internals& operator =(const basic_internals& rhs_)
+        {
+            // Strong exception guarantee: the tables belong together
+            basic_internals temp_(rhs_);
+
+            swap(temp_);
+            return *this;
+        }
+
         void clear()
         {
             _eoi = 0;
-- 
2.43.0


From 3aea66dd0ec2e260a6500b6ec79c5a0f37cb79bd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:49:19 +0000
Subject: [PATCH 16/46] fix: replace forgot where its output was

---
 include/lexertl/replace.hpp | 45 +++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/include/lexertl/replace.hpp b/include/lexertl/replace.hpp
index 7655f38..7f6abab 100644
--- a/include/lexertl/replace.hpp
+++ b/include/lexertl/replace.hpp
@@ -31,13 +31,13 @@ namespace lexertl
 
         while (results_.id != 0)
         {
-            std::copy(last_, results_.first, out_);
-            std::copy(fmt_.cbegin(), fmt_.cend(), out_);
+            out_ = std::copy(last_, results_.first, out_);
+            out_ = std::copy(fmt_.cbegin(), fmt_.cend(), out_);
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -57,18 +57,19 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
-                std::copy(iter_->second.cbegin(), iter_->second.cend(), out_);
+                out_ = std::copy(iter_->second.cbegin(),
+                    iter_->second.cend(), out_);
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -90,22 +91,22 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
             {
                 const auto str_ = iter_->second(results_.first, results_.second);
 
-                std::copy(str_.cbegin(), str_.cend(), out_);
+                out_ = std::copy(str_.cbegin(), str_.cend(), out_);
             }
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -129,13 +130,13 @@ namespace lexertl
 
         while (results_.id != 0)
         {
-            std::copy(last_, results_.first, out_);
-            std::copy(fmt_, end_fmt_, out_);
+            out_ = std::copy(last_, results_.first, out_);
+            out_ = std::copy(fmt_, end_fmt_, out_);
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -153,10 +154,10 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
             {
                 const char_type* end_fmt_ = [end_ = iter_->second]() mutable
@@ -167,14 +168,14 @@ namespace lexertl
                         return end_;
                     }();
 
-                std::copy(iter_->second, end_fmt_, out_);
+                out_ = std::copy(iter_->second, end_fmt_, out_);
             }
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -193,10 +194,10 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
             {
                 const char_type* str_ =
@@ -209,14 +210,14 @@ namespace lexertl
                         return str_;
                     }();
 
-                std::copy(str_, end_str_, out_);
+                out_ = std::copy(str_, end_str_, out_);
             }
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
-- 
2.43.0


From 5487cd65af04105b5bd05a8026d75d0dec4ec346 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:50:35 +0000
Subject: [PATCH 17/46] fix: replace dropped a token that the end of input cut
 short

---
 include/lexertl/replace.hpp | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/lexertl/replace.hpp b/include/lexertl/replace.hpp
index 7f6abab..1879ab2 100644
--- a/include/lexertl/replace.hpp
+++ b/include/lexertl/replace.hpp
@@ -37,7 +37,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -69,7 +69,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -106,7 +106,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -136,7 +136,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -175,7 +175,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -217,7 +217,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -245,7 +245,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -280,7 +280,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -320,7 +320,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -353,7 +353,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -386,7 +386,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -420,7 +420,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -452,7 +452,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -492,7 +492,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -533,7 +533,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -565,7 +565,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -604,7 +604,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -644,7 +644,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 }
-- 
2.43.0


From 211633d17fc3d18de4602a5091b22ccb7e53890f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 18/46] fix: debug::dump of rules did not compile

---
 include/lexertl/parser/tokeniser/re_token.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/lexertl/parser/tokeniser/re_token.hpp b/include/lexertl/parser/tokeniser/re_token.hpp
index 53a208b..d63334a 100644
--- a/include/lexertl/parser/tokeniser/re_token.hpp
+++ b/include/lexertl/parser/tokeniser/re_token.hpp
@@ -40,6 +40,13 @@ namespace lexertl::detail
         {
         }
 
+        friend bool operator ==(const basic_re_token& lhs_,
+            const basic_re_token& rhs_)
+        {
+            return lhs_._type == rhs_._type && lhs_._extra == rhs_._extra &&
+                lhs_._str == rhs_._str;
+        }
+
         void clear()
         {
             _type = token_type::BEGIN;
-- 
2.43.0


From 7fa924c82c8b1e084869b8ed55b9afed8558ecd5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 19/46] fix: debug::dump of rules never ended with an empty
 macro

---
 include/lexertl/debug.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/debug.hpp b/include/lexertl/debug.hpp
index 7872e95..b0e11b9 100644
--- a/include/lexertl/debug.hpp
+++ b/include/lexertl/debug.hpp
@@ -247,7 +247,9 @@ namespace lexertl
                     pair_.second.pop_back();
                 }
 
-                macro_sizes_.emplace(pair_.second.size(), pair_.first);
+                // There is nothing to replace for an empty macro
+                if (!pair_.second.empty())
+                    macro_sizes_.emplace(pair_.second.size(), pair_.first);
             }
         }
 
-- 
2.43.0


From 93bfb993de009b5cf9eb4870e7a07f6e213b6ea7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 20/46] fix: debug::dump of rules left out which state is
 pushed

---
 include/lexertl/debug.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/debug.hpp b/include/lexertl/debug.hpp
index b0e11b9..86a59d6 100644
--- a/include/lexertl/debug.hpp
+++ b/include/lexertl/debug.hpp
@@ -104,7 +104,8 @@ namespace lexertl
 
                     if (push_state_ != rules_.npos())
                     {
-                        if (push_state_ && push_state_ != dfa_)
+                        // yy_push_state() pushes the current state
+                        if (push_state_ != state_)
                         {
                             Begin(stream_);
                             stream_ << rules_.state(push_state_);
-- 
2.43.0


From 60a8ebc443a3a362190592ce4a2afdaae2538ed6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 21/46] fix: dumps put the escape of a range's end before its
 start, left ] and $ bare

---
 include/lexertl/debug.hpp | 21 +++++++++++----------
 include/lexertl/dot.hpp   |  8 +++++---
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/include/lexertl/debug.hpp b/include/lexertl/debug.hpp
index 86a59d6..ca2f038 100644
--- a/include/lexertl/debug.hpp
+++ b/include/lexertl/debug.hpp
@@ -448,10 +448,10 @@ namespace lexertl
             ostream& stream_)
         {
             string_token token_ = in_token_;
-            bool negated_ = false;
+            const bool class_ = token_._ranges.size() > 1 ||
+                token_._ranges.front().first != token_._ranges.front().second;
 
-            if (token_._ranges.size() > 1 ||
-                token_._ranges.front().first != token_._ranges.front().second)
+            if (class_)
             {
                 open_bracket(stream_);
             }
@@ -473,6 +473,7 @@ namespace lexertl
                 case static_cast<char_type>(']'):
                 case static_cast<char_type>('.'):
                 case static_cast<char_type>('/'):
+                case static_cast<char_type>('$'):
                     stream_ << static_cast<char_type>('\\');
                     break;
                 default:
@@ -484,22 +485,23 @@ namespace lexertl
             {
                 token_.negate();
                 negated(stream_);
-                negated_ = true;
             }
 
             string chars_;
 
             for (const auto& range_ : token_._ranges)
             {
+                chars_.clear();
+
                 if (range_.first == static_cast<char_type>('-') ||
                     range_.first == static_cast<char_type>('^') ||
                     (range_.first == static_cast<char_type>(']') &&
-                    range_.first != range_.second))
+                    class_))
                 {
-                    stream_ << static_cast<char_type>('\\');
+                    chars_ += static_cast<char_type>('\\');
                 }
 
-                chars_ = string_token::escape_char
+                chars_ += string_token::escape_char
                 (range_.first);
 
                 if (range_.first != range_.second)
@@ -513,7 +515,7 @@ namespace lexertl
                         range_.second == static_cast<char_type>('^') ||
                         range_.second == static_cast<char_type>(']'))
                     {
-                        stream_ << static_cast<char_type>('\\');
+                        chars_ += static_cast<char_type>('\\');
                     }
 
                     chars_ += string_token::escape_char(range_.second);
@@ -522,8 +524,7 @@ namespace lexertl
                 stream_ << chars_;
             }
 
-            if (token_._ranges.size() > 1 || negated_ ||
-                token_._ranges.front().first != token_._ranges.front().second)
+            if (class_)
             {
                 close_bracket(stream_);
             }
diff --git a/include/lexertl/dot.hpp b/include/lexertl/dot.hpp
index 4e54763..2fcd73b 100644
--- a/include/lexertl/dot.hpp
+++ b/include/lexertl/dot.hpp
@@ -250,13 +250,15 @@ namespace lexertl
 
             for (const auto& range : token_._ranges)
             {
+                chars_.clear();
+
                 if (range.first == '^' ||
                     range.first == ']')
                 {
-                    stream_ << R"(\\)";
+                    chars_ += R"(\\)";
                 }
 
-                chars_ = double_escape_char(range.first);
+                chars_ += double_escape_char(range.first);
 
                 if (range.first != range.second)
                 {
@@ -268,7 +270,7 @@ namespace lexertl
                     if (range.second == '^' ||
                         range.second == ']')
                     {
-                        stream_ << R"(\\)";
+                        chars_ += R"(\\)";
                     }
 
                     chars_ += double_escape_char(range.second);
-- 
2.43.0


From 36e88700768b8a39c4cce9da7c55766cb56b58cf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:01:03 +0000
Subject: [PATCH 22/46] fix: dumps wrote 8 bit ids as characters

---
 include/lexertl/debug.hpp | 3 ++-
 include/lexertl/dot.hpp   | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/lexertl/debug.hpp b/include/lexertl/debug.hpp
index ca2f038..3a614a2 100644
--- a/include/lexertl/debug.hpp
+++ b/include/lexertl/debug.hpp
@@ -331,7 +331,8 @@ namespace lexertl
                         dfa_state::push_pop_dfa::push_dfa)
                     {
                         push(stream_);
-                        stream_num(state_._push_dfa, stream_);
+                        stream_num(static_cast<std::size_t>(state_._push_dfa),
+                            stream_);
                     }
                     else if (state_._push_pop_dfa ==
                         dfa_state::push_pop_dfa::pop_dfa)
diff --git a/include/lexertl/dot.hpp b/include/lexertl/dot.hpp
index 2fcd73b..2903ef4 100644
--- a/include/lexertl/dot.hpp
+++ b/include/lexertl/dot.hpp
@@ -71,9 +71,9 @@ namespace lexertl
             stringstream namestream_;
 
             namestream_ << 'L';
-            stream_num(dfa_id_, namestream_);
+            stream_num(static_cast<std::size_t>(dfa_id_), namestream_);
             namestream_ << "_S";
-            stream_num(state_id_, namestream_);
+            stream_num(static_cast<std::size_t>(state_id_), namestream_);
             return namestream_.str();
         }
 
@@ -186,7 +186,7 @@ namespace lexertl
                     if (name_)
                         stream_ << name_;
                     else
-                        stream_ << dfa_id_;
+                        stream_num(static_cast<std::size_t>(dfa_id_), stream_);
 
                     stream_ << "\"];" << std::endl;
                 }
-- 
2.43.0


From d74c46d39b5c73c6bbf62386fc2b4b5254f32bf1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 23/46] fix: running out of memory shortened numbers and
 characters in dumps

---
 include/lexertl/dot.hpp          | 4 ++++
 include/lexertl/stream_num.hpp   | 3 +++
 include/lexertl/string_token.hpp | 2 ++
 3 files changed, 9 insertions(+)

diff --git a/include/lexertl/dot.hpp b/include/lexertl/dot.hpp
index 2903ef4..f4269ed 100644
--- a/include/lexertl/dot.hpp
+++ b/include/lexertl/dot.hpp
@@ -70,6 +70,8 @@ namespace lexertl
         {
             stringstream namestream_;
 
+            // Running out of memory must not just shorten the text
+            namestream_.exceptions(std::ios_base::badbit);
             namestream_ << 'L';
             stream_num(static_cast<std::size_t>(dfa_id_), namestream_);
             namestream_ << "_S";
@@ -84,6 +86,8 @@ namespace lexertl
         {
             stringstream out_;
 
+            out_.exceptions(std::ios_base::badbit);
+
             switch (ch_)
             {
             case '\0':
diff --git a/include/lexertl/stream_num.hpp b/include/lexertl/stream_num.hpp
index 4dc4c81..5e04cd3 100644
--- a/include/lexertl/stream_num.hpp
+++ b/include/lexertl/stream_num.hpp
@@ -32,6 +32,9 @@ namespace lexertl
         std::stringstream css_;
         std::string count_;
 
+        // Running out of memory must not just shorten the text
+        css_.exceptions(std::ios_base::badbit);
+        css_.flags(ss_.flags());
         css_ << num_;
         count_ = css_.str();
 
diff --git a/include/lexertl/string_token.hpp b/include/lexertl/string_token.hpp
index ebe5d27..76bd14f 100644
--- a/include/lexertl/string_token.hpp
+++ b/include/lexertl/string_token.hpp
@@ -387,6 +387,8 @@ namespace lexertl
                 {
                     std::basic_stringstream<char_type> ss_;
 
+                    // Running out of memory must not just shorten the text
+                    ss_.exceptions(std::ios_base::badbit);
                     out_ += '\\';
                     out_ += 'x';
                     ss_ << std::hex;
-- 
2.43.0


From c9c47f75aafa91215ccf7aec8976f7ce9b9b92ac Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 24/46] fix: a decoding iterator that failed to advance was
 past its character

---
 include/lexertl/utf_iterators.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/lexertl/utf_iterators.hpp b/include/lexertl/utf_iterators.hpp
index 1ec4ae2..5c79e8e 100644
--- a/include/lexertl/utf_iterators.hpp
+++ b/include/lexertl/utf_iterators.hpp
@@ -63,8 +63,8 @@ namespace lexertl
 
         basic_utf8_in_iterator& operator ++()
         {
-            _it = _end;
-            next();
+            // Nothing changes if reading fails
+            *this = basic_utf8_in_iterator(_end, _eoi);
             return *this;
         }
 
@@ -72,8 +72,8 @@ namespace lexertl
         {
             basic_utf8_in_iterator temp_ = *this;
 
-            _it = _end;
-            next();
+            // Nothing changes if reading fails
+            *this = basic_utf8_in_iterator(_end, _eoi);
             return temp_;
         }
 
@@ -420,8 +420,8 @@ namespace lexertl
 
         basic_utf16_in_iterator& operator ++()
         {
-            _it = _end;
-            next();
+            // Nothing changes if reading fails
+            *this = basic_utf16_in_iterator(_end, _eoi);
             return *this;
         }
 
@@ -429,8 +429,8 @@ namespace lexertl
         {
             basic_utf16_in_iterator temp_ = *this;
 
-            _it = _end;
-            next();
+            // Nothing changes if reading fails
+            *this = basic_utf16_in_iterator(_end, _eoi);
             return temp_;
         }
 
-- 
2.43.0


From 94d07af1b7f2be629bf27f82cf85fc5037333657 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 25/46] fix: an encoding iterator that failed to advance
 pointed past its units

---
 include/lexertl/utf_iterators.hpp | 68 ++++++++++++++++---------------
 1 file changed, 36 insertions(+), 32 deletions(-)

diff --git a/include/lexertl/utf_iterators.hpp b/include/lexertl/utf_iterators.hpp
index 5c79e8e..f6c116d 100644
--- a/include/lexertl/utf_iterators.hpp
+++ b/include/lexertl/utf_iterators.hpp
@@ -294,14 +294,7 @@ namespace lexertl
 
         basic_utf8_out_iterator& operator ++()
         {
-            ++_index;
-
-            if (_index >= _count)
-            {
-                ++_it;
-                next();
-            }
-
+            increment();
             return *this;
         }
 
@@ -309,14 +302,7 @@ namespace lexertl
         {
             basic_utf8_out_iterator temp_ = *this;
 
-            ++_index;
-
-            if (_index >= _count)
-            {
-                ++_it;
-                next();
-            }
-
+            increment();
             return temp_;
         }
 
@@ -327,6 +313,22 @@ namespace lexertl
         unsigned char _count = 0;
         unsigned char _index = 0;
 
+        void increment()
+        {
+            if (_index + 1 < _count)
+            {
+                ++_index;
+            }
+            else
+            {
+                char_iterator it_ = _it;
+
+                // Nothing changes if reading fails
+                ++it_;
+                *this = basic_utf8_out_iterator(it_, _eoi);
+            }
+        }
+
         void next()
         {
             if (_it == _eoi)
@@ -555,14 +557,7 @@ namespace lexertl
 
         basic_utf16_out_iterator& operator ++()
         {
-            ++_index;
-
-            if (_index >= _count)
-            {
-                ++_it;
-                next();
-            }
-
+            increment();
             return *this;
         }
 
@@ -570,14 +565,7 @@ namespace lexertl
         {
             basic_utf16_out_iterator temp_ = *this;
 
-            ++_index;
-
-            if (_index >= _count)
-            {
-                ++_it;
-                next();
-            }
-
+            increment();
             return temp_;
         }
 
@@ -588,6 +576,22 @@ namespace lexertl
         unsigned char _count = 0;
         unsigned char _index = 0;
 
+        void increment()
+        {
+            if (_index + 1 < _count)
+            {
+                ++_index;
+            }
+            else
+            {
+                char_iterator it_ = _it;
+
+                // Nothing changes if reading fails
+                ++it_;
+                *this = basic_utf16_out_iterator(it_, _eoi);
+            }
+        }
+
         void next()
         {
             if (_it == _eoi)
-- 
2.43.0


From 616f7cf1bf4bf1b0cf093eca54a999c7587cb576 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 26/46] fix: encoding iterators at different units of one
 character compared equal

---
 include/lexertl/utf_iterators.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lexertl/utf_iterators.hpp b/include/lexertl/utf_iterators.hpp
index f6c116d..af6da8b 100644
--- a/include/lexertl/utf_iterators.hpp
+++ b/include/lexertl/utf_iterators.hpp
@@ -283,13 +283,13 @@ namespace lexertl
         friend bool operator ==(const basic_utf8_out_iterator& lhs_,
             const basic_utf8_out_iterator& rhs_)
         {
-            return lhs_._it == rhs_._it;
+            return lhs_._it == rhs_._it && lhs_._index == rhs_._index;
         }
 
         friend bool operator !=(const basic_utf8_out_iterator& lhs_,
             const basic_utf8_out_iterator& rhs_)
         {
-            return lhs_._it != rhs_._it;
+            return !(lhs_ == rhs_);
         }
 
         basic_utf8_out_iterator& operator ++()
@@ -546,13 +546,13 @@ namespace lexertl
         friend bool operator ==(const basic_utf16_out_iterator& lhs_,
             const basic_utf16_out_iterator& rhs_)
         {
-            return lhs_._it == rhs_._it;
+            return lhs_._it == rhs_._it && lhs_._index == rhs_._index;
         }
 
         friend bool operator !=(const basic_utf16_out_iterator& lhs_,
             const basic_utf16_out_iterator& rhs_)
         {
-            return lhs_._it != rhs_._it;
+            return !(lhs_ == rhs_);
         }
 
         basic_utf16_out_iterator& operator ++()
-- 
2.43.0


From 1fcab2adb7f6b89fd56d215adff69988aaf0392b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 27/46] fix: overlong UTF-8, encoded surrogates and values past
 U+10FFFF were passed on

---
 include/lexertl/utf_iterators.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/lexertl/utf_iterators.hpp b/include/lexertl/utf_iterators.hpp
index af6da8b..933e316 100644
--- a/include/lexertl/utf_iterators.hpp
+++ b/include/lexertl/utf_iterators.hpp
@@ -162,6 +162,10 @@ namespace lexertl
 
             ch_ = (ch_ << 6 & 0x7ff) | (*_end & 0x3f);
             ++_end;
+
+            // Overlong
+            if (ch_ < 0x80)
+                invalid_utf8();
         }
 
         void next3(char_type& ch_)
@@ -186,6 +190,10 @@ namespace lexertl
 
             ch_ |= *_end & 0x3f;
             ++_end;
+
+            // Overlong or a surrogate
+            if (ch_ < 0x800 || (ch_ >= 0xd800 && ch_ <= 0xdfff))
+                invalid_utf8();
         }
 
         void next4(char_type& ch_)
@@ -219,6 +227,10 @@ namespace lexertl
 
             ch_ |= *_end & 0x3f;
             ++_end;
+
+            // Overlong or out of range
+            if (ch_ < 0x10000 || ch_ > 0x10ffff)
+                invalid_utf8();
         }
 
         char len(const char_iterator& it_) const
-- 
2.43.0


From 9b53196fce0f8b1e70405a8821812d09db9969a9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 28/46] fix: generated C++ of a recursive machine with one
 state did not compile

---
 include/lexertl/generate_cpp.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index b545822..e75fa59 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -595,8 +595,13 @@ namespace lexertl
             {
                 os_ << "        if (pop_)\n";
                 os_ << "        {\n";
-                os_ << "            start_state_ =  results_."
-                    "stack.top().first;\n";
+
+                if (internals_._dfa.size() > 1)
+                {
+                    os_ << "            start_state_ =  results_."
+                        "stack.top().first;\n";
+                }
+
                 os_ << "            results_.stack.pop();\n";
                 os_ << "        }\n";
                 os_ << "        else if (push_dfa_ != results_.npos())\n";
-- 
2.43.0


From 31393103a258b1d6b004d5669c74619dc6ba283a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 29/46] fix: generated pointer tables of a machine with over
 ten states did not compile

---
 include/lexertl/generate_cpp.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index e75fa59..f6d622b 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -803,11 +803,10 @@ namespace lexertl
 
                 if (dfas_ > 1)
                 {
-                    std::ostringstream ss_;
+                    const std::string num_ = std::to_string(dfa_);
 
-                    ss_ << dfa_;
-                    dfa_name_ += ss_.str();
-                    os_ << dfa_;
+                    dfa_name_ += num_;
+                    os_ << num_;
                 }
 
                 dfa_name_ += '_';
@@ -846,7 +845,7 @@ namespace lexertl
 
                 for (std::size_t col_ = 1; col_ < dfas_; ++col_)
                 {
-                    os_ << ", dfa" << col_ << '_';
+                    os_ << ", dfa" << std::to_string(col_) << '_';
                 }
 
                 os_ << "};\n";
-- 
2.43.0


From 839346dc63f7bbe3b825d45656fdad7dfcd4bc6c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 30/46] fix: generated C++ let $ match after the last character
 although it did not fit

---
 include/lexertl/generate_cpp.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index f6d622b..29030f5 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -950,7 +950,7 @@ namespace lexertl
             std::ostream& os_, const std::false_type&)
         {
             output_tabs(additional_tabs_, os_);
-            os_ << "        const char_type prev_char_ = *curr_++;\n";
+            os_ << "        const char_type prev_char_ = *curr_;\n";
             output_tabs(additional_tabs_, os_);
             os_ << "        const ";
 
@@ -1031,6 +1031,8 @@ namespace lexertl
             }
 
             os_ << ";\n";
+            output_tabs(additional_tabs_, os_);
+            os_ << "        ++curr_;\n";
         }
 
         template<typename id_type>
@@ -1047,7 +1049,7 @@ namespace lexertl
             output_tabs(additional_tabs_, os_);
             os_ << "        const std::size_t shift_[] = {0, 8, 16};\n";
             output_tabs(additional_tabs_, os_);
-            os_ << "        char_type prev_char_ = *curr_++;\n\n";
+            os_ << "        char_type prev_char_ = *curr_;\n\n";
 
             if (features_ & *feature_bit::bol)
             {
@@ -1120,7 +1122,9 @@ namespace lexertl
 
             os_ << ";\n";
             output_tabs(additional_tabs_, os_);
-            os_ << "        }\n";
+            os_ << "        }\n\n";
+            output_tabs(additional_tabs_, os_);
+            os_ << "        ++curr_;\n";
         }
 
         static void output_quit(std::ostream&, const std::false_type&)
-- 
2.43.0


From 30c1727691a598192b1cdc18cd32560155a52cee Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 31/46] fix: generated C++ did not let $ match before CR

---
 include/lexertl/generate_cpp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index 29030f5..638b20b 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -286,7 +286,8 @@ namespace lexertl
                 }
 
                 os_ << ";\n\n";
-                os_ << "        if (EOL_state_ && *curr_ == '\\n')\n";
+                os_ << "        if (EOL_state_ && (*curr_ == '\\r' || "
+                    "*curr_ == '\\n'))\n";
                 os_ << "        {\n";
                 os_ << "            ptr_ = ";
 
-- 
2.43.0


From 07ddb6a189eabf2ab543bf87e11653601b936ad4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 32/46] fix: generated pointer tables sent states without ^
 rules to the jam state

---
 include/lexertl/generate_cpp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index 638b20b..1c8eec3 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -865,7 +865,7 @@ namespace lexertl
             {
                 bool zero_ = *ptr_ == 0;
 
-                if (first_)
+                if (first_ && !zero_)
                 {
                     // We want numbers regardless of id_type.
                     os_ << dfa_name_ << " + 0x" << std::hex <<
-- 
2.43.0


From 8db039a589b032309bea12ec62b4afffe1e8e46e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 33/46] fix: generated pointer tables held the number of the
 state after $ as its address

---
 include/lexertl/generate_cpp.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index 1c8eec3..03d2c49 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -890,6 +890,14 @@ namespace lexertl
                     os_ << ", ";
                     zero_ = *ptr_ == 0;
 
+                    if (!zero_ && id_index_ == *state_index::eol)
+                    {
+                        // We want numbers regardless of id_type.
+                        os_ << dfa_name_ << " + 0x" << std::hex <<
+                            static_cast<std::size_t>(*ptr_) * dfa_alphabet_;
+                        continue;
+                    }
+
                     if (!zero_)
                     {
                         os_ << "reinterpret_cast<const void*>(";
-- 
2.43.0


From 14b10262a76194bda67a7ae50acdbecead870b20 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 34/46] fix: generated C++ popped an empty stack

---
 include/lexertl/generate_cpp.hpp  | 3 +++
 include/lexertl/match_results.hpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index 03d2c49..956727e 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -596,6 +596,9 @@ namespace lexertl
             {
                 os_ << "        if (pop_)\n";
                 os_ << "        {\n";
+                os_ << "            if (results_.stack.empty())\n";
+                os_ << "                throw lexertl::runtime_error"
+                    "(\"Stack underflow in " << name_ << "().\");\n\n";
 
                 if (internals_._dfa.size() > 1)
                 {
diff --git a/include/lexertl/match_results.hpp b/include/lexertl/match_results.hpp
index 50e519a..20a66e1 100644
--- a/include/lexertl/match_results.hpp
+++ b/include/lexertl/match_results.hpp
@@ -9,6 +9,7 @@
 #include "char_traits.hpp"
 #include "enum_operator.hpp"
 #include "enums.hpp"
+#include "runtime_error.hpp"
 
 #include <cstdint>
 #include <iterator>
-- 
2.43.0


From 049b61c5a2a1e3ff69ee5f46f0f53bc2ae5bb0ea Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 35/46] fix: a read that threw on a no match left results bol
 changed in generated C++

---
 include/lexertl/generate_cpp.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index 956727e..8f997d6 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -659,15 +659,23 @@ namespace lexertl
             os_ << "    else\n";
             os_ << "    {\n";
             os_ << "        // No match causes char to be skipped\n";
-            os_ << "        results_.second = end_token_;\n";
 
             if (internals_._features & *feature_bit::bol)
             {
-                os_ << "        results_.bol = *results_.second == '\\n';\n";
+                os_ << "        // Reading or advancing can throw, "
+                    "so update bol last\n";
+                os_ << "        end_bol_ = *end_token_ == '\\n';\n";
             }
 
+            os_ << "        results_.second = end_token_;\n";
             os_ << "        results_.first = results_.second;\n";
             os_ << "        ++results_.second;\n";
+
+            if (internals_._features & *feature_bit::bol)
+            {
+                os_ << "        results_.bol = end_bol_;\n";
+            }
+
             os_ << "        id_ = results::npos();\n";
             os_ << "        uid_ = results::npos();\n";
             os_ << "    }\n\n";
-- 
2.43.0


From 6f9fe80c665343ad2998702496bbc4cf472cd89c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 36/46] fix: generated C++ depended on the format and locale of
 the stream, which it left changed

---
 include/lexertl/generate_cpp.hpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index 8f997d6..a84e570 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -11,6 +11,8 @@
 #include "state_machine.hpp"
 
 #include <ios>
+#include <locale>
+#include <ostream>
 #include <sstream>
 #include <string>
 #include <type_traits>
@@ -24,12 +26,17 @@ namespace lexertl
         static void generate
         (const std::string& name_,
             const basic_state_machine<char_type, id_type>& sm_,
-            const bool pointers_, std::ostream& os_)
+            const bool pointers_, std::ostream& stream_)
         {
             using sm = basic_state_machine<char_type, id_type>;
             using internals = typename sm::internals;
             const internals& internals_ = sm_.data();
             std::size_t additional_tabs_ = 0;
+            // The format of stream_ must not change what is written
+            std::ostringstream os_;
+
+            os_.imbue(std::locale::classic());
+            os_.exceptions(std::ios_base::badbit);
 
             os_ << "template<typename iter_type, typename id_type>\n";
             os_ << "void " << name_ << " (lexertl::";
@@ -682,19 +689,24 @@ namespace lexertl
             os_ << "    results_.id = id_;\n";
             os_ << "    results_.user_id = uid_;\n";
             os_ << "}\n";
+            write(os_, stream_);
         }
 
         template<typename char_type, typename id_type>
         static void dump_tables
         (const basic_state_machine<char_type, id_type>& sm_,
-            const std::size_t tabs_, const bool pointers_, std::ostream& os_)
+            const std::size_t tabs_, const bool pointers_,
+            std::ostream& stream_)
         {
             const auto& internals_ = sm_.data();
+            std::ostringstream os_;
             const std::size_t lookup_divisor_ = 8;
             // Lookup is always 256 entries long now
             const std::size_t lookup_quotient_ = 256 / lookup_divisor_;
             const std::size_t dfas_ = internals_._lookup.size();
 
+            os_.imbue(std::locale::classic());
+            os_.exceptions(std::ios_base::badbit);
             output_tabs(tabs_, os_);
             os_ << "static const id_type lookup";
 
@@ -863,10 +875,18 @@ namespace lexertl
                 os_ << "};\n";
             }
 
-            os_ << std::dec;
+            write(os_, stream_);
         }
 
     protected:
+        static void write(const std::ostringstream& os_, std::ostream& stream_)
+        {
+            const std::string str_ = os_.str();
+
+            stream_.write(str_.data(),
+                static_cast<std::streamsize>(str_.size()));
+        }
+
         template<typename id_type>
         static void dump_row(const bool first_, const id_type*& ptr_,
             const std::string& dfa_name_, const id_type dfa_alphabet_,
-- 
2.43.0


From 5d1d6ce0a83e10c5633899e1f3e90c05476114ee Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:18:00 +0000
Subject: [PATCH 37/46] fix: what save wrote and load read depended on the
 format and locale of the stream

---
 include/lexertl/serialise.hpp | 86 +++++++++++++++++++++++++----------
 1 file changed, 63 insertions(+), 23 deletions(-)

diff --git a/include/lexertl/serialise.hpp b/include/lexertl/serialise.hpp
index ca4a13b..422f28f 100644
--- a/include/lexertl/serialise.hpp
+++ b/include/lexertl/serialise.hpp
@@ -24,13 +24,34 @@ namespace lexertl
             return std::to_string(num_);
         }
 
+        // Not using << as stream_ can have any format and locale
+        template<class stream>
+        void output_str(const std::string& str_, const char delim_,
+            stream& stream_)
+        {
+            using char_type = typename stream::char_type;
+
+            for (const char ch_ : str_)
+            {
+                stream_.put(static_cast<char_type>(ch_));
+            }
+
+            stream_.put(static_cast<char_type>(delim_));
+        }
+
+        template<class stream>
+        void output_num(const std::size_t num_, stream& stream_)
+        {
+            output_str(num_to_str(num_), '\n', stream_);
+        }
+
         template<typename id_type, class stream>
         void output_vec(const std::vector<id_type>& vec_, stream& stream_)
         {
             std::string str_;
             std::size_t line_len_ = 0;
 
-            stream_ << vec_.size() << '\n';
+            output_num(vec_.size(), stream_);
 
             for (const id_type l_ : vec_)
             {
@@ -38,37 +59,56 @@ namespace lexertl
 
                 if (line_len_ + str_.size() + 1 > 80)
                 {
-                    stream_ << '\n' << str_.c_str() << ' ';
-                    line_len_ = str_.size() + 1;
-                }
-                else
-                {
-                    stream_ << str_.c_str() << ' ';
-                    line_len_ += str_.size() + 1;
+                    output_str(std::string(), '\n', stream_);
+                    line_len_ = 0;
                 }
+
+                output_str(str_, ' ', stream_);
+                line_len_ += str_.size() + 1;
             }
 
-            stream_ << '\n';
+            output_str(std::string(), '\n', stream_);
+        }
+
+        template<typename int_type>
+        bool is_space(const int_type ch_)
+        {
+            return ch_ == ' ' || ch_ == '\t' || ch_ == '\r' || ch_ == '\n';
         }
 
         template<typename num_type, class stream>
         num_type input_num(stream& stream_)
         {
+            const std::size_t max_ = std::numeric_limits<num_type>::max();
             std::size_t num_ = 0;
+            bool num_found_ = false;
+            auto next_ = stream_.get();
+
+            // Not using >> as stream_ can have any format and locale
+            while (stream_ && is_space(next_))
+            {
+                next_ = stream_.get();
+            }
 
-            stream_ >> num_;
+            for (; stream_ && next_ >= '0' && next_ <= '9';
+                next_ = stream_.get())
+            {
+                const auto digit_ = static_cast<std::size_t>(next_ - '0');
+
+                if (num_ > (max_ - digit_) / 10)
+                    throw runtime_error("Number out of range in "
+                        "lexertl::load().");
+
+                num_ = num_ * 10 + digit_;
+                num_found_ = true;
+            }
 
             // save() writes whitespace after every number, so a number
             // without is damaged
-            const auto next_ = stream_.get();
-
-            if (!stream_ || (next_ != ' ' && next_ != '\n' && next_ != '\r'))
+            if (!stream_ || !num_found_ || !is_space(next_))
                 throw runtime_error("Unexpected end of stream or bad number "
                     "in lexertl::load().");
 
-            if (num_ > std::numeric_limits<num_type>::max())
-                throw runtime_error("Number out of range in lexertl::load().");
-
             return static_cast<num_type>(num_);
         }
 
@@ -93,11 +133,11 @@ namespace lexertl
         const internals& internals_ = sm_.data();
 
         // Version number
-        stream_ << 1 << '\n';
-        stream_ << sizeof(char_type) << '\n';
-        stream_ << sizeof(id_type) << '\n';
-        stream_ << detail::num_to_str(internals_._eoi).c_str() << '\n';
-        stream_ << internals_._lookup.size() << '\n';
+        detail::output_num(1, stream_);
+        detail::output_num(sizeof(char_type), stream_);
+        detail::output_num(sizeof(id_type), stream_);
+        detail::output_num(internals_._eoi, stream_);
+        detail::output_num(internals_._lookup.size(), stream_);
 
         for (const auto& vec_ : internals_._lookup)
         {
@@ -105,8 +145,8 @@ namespace lexertl
         }
 
         detail::output_vec(internals_._dfa_alphabet, stream_);
-        stream_ << detail::num_to_str(internals_._features).c_str() << '\n';
-        stream_ << internals_._dfa.size() << '\n';
+        detail::output_num(internals_._features, stream_);
+        detail::output_num(internals_._dfa.size(), stream_);
 
         for (const auto& vec_ : internals_._dfa)
         {
-- 
2.43.0


From 5a6e49d97d67f3602efcdd4a334420624d1f8694 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 38/46] fix: reversed rules kept the line features of the
 unreversed ones

---
 include/lexertl/rules.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index 97a824e..e68fd0b 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -414,6 +414,16 @@ namespace lexertl
 
             _regexes.swap(regexes_);
             _macro_map.swap(macro_map_);
+
+            // '^' has become '$' and the other way round
+            for (auto& features_ : _features)
+            {
+                const id_type bol_ = *feature_bit::bol;
+                const id_type eol_ = *feature_bit::eol;
+
+                if (((features_ & bol_) != 0) != ((features_ & eol_) != 0))
+                    features_ = static_cast<id_type>(features_ ^ (bol_ | eol_));
+            }
         }
 
         const string_id_type_map& statemap() const
-- 
2.43.0


From e082a98c1a625badf6f5f7ce956156b36217a5cf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 39/46] fix: a failed assignment left rules whose parts did not
 fit together

---
 include/lexertl/rules.hpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index e68fd0b..2eddaf2 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -79,9 +79,32 @@ namespace lexertl
             push_state(initial());
         }
 
+        basic_rules(const basic_rules&) = default;
+
         // Added to support python bindings
         virtual ~basic_rules() = default;
 
+        basic_rules& operator =(const basic_rules& rhs_)
+        {
+            // Keep the current rules if memory runs out
+            basic_rules copy_(rhs_);
+
+            _statemap.swap(copy_._statemap);
+            _macro_map.swap(copy_._macro_map);
+            _regexes.swap(copy_._regexes);
+            _regex_strings.swap(copy_._regex_strings);
+            _features.swap(copy_._features);
+            _ids.swap(copy_._ids);
+            _user_ids.swap(copy_._user_ids);
+            _next_dfas.swap(copy_._next_dfas);
+            _pushes.swap(copy_._pushes);
+            _pops.swap(copy_._pops);
+            _flags = copy_._flags;
+            _locale = copy_._locale;
+            _lexer_state_names.swap(copy_._lexer_state_names);
+            return *this;
+        }
+
         void clear()
         {
             // INITIAL always exists, so keep it (this cannot fail)
-- 
2.43.0


From b69ec694388f29790a441ca2908ef16d643f2b99 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 40/46] fix: an alternative without ^ was not offered at the
 start of a line

In a rule such as ^a|b the ^ belongs to the first alternative, but the
second one could then not match at the start of a line at all.
---
 include/lexertl/generator.hpp     | 7 +++++++
 include/lexertl/parser/parser.hpp | 5 +++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 7e5ad65..960afbc 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -256,6 +256,13 @@ namespace lexertl
 
                 for (auto& equivset_ : equiv_list_)
                 {
+                    // A BOL only counts before the first character
+                    if (index_ != 0 && equivset_->_index_vector.front() ==
+                        parser::bol_token())
+                    {
+                        continue;
+                    }
+
                     // When compressed, cr_id_ and nl_id_ are only bytes of
                     // chars (U+0D0A would be taken for CR LF).
                     if (!sm_traits::compressed)
diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index 1ee503a..53a78cd 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -941,15 +941,16 @@ namespace lexertl::detail
             const auto& first_ = root_->firstpos();
             bool found_ = false;
 
+            // Only some of the alternatives can start with a BOL
             for (observer_ptr<const node> node_ : first_)
             {
-                found_ = !node_->end_state() && node_->token() ==
+                found_ = node_->end_state() || node_->token() !=
                     bol_token();
 
                 if (found_) break;
             }
 
-            if (!found_)
+            if (found_)
             {
                 _node_ptr_vector.push_back(std::make_unique<leaf_node>
                     (bol_token(), greedy_repeat::yes));
-- 
2.43.0


From 67c1434806aae61cc30daa270046007431ea263b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:05:06 +0000
Subject: [PATCH 41/46] fix: [[:print:]] was the characters that are not
 printable in wide state machines

---
 include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
index c6b9b77..f496586 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
@@ -853,7 +853,7 @@ namespace lexertl::detail
                 {
                     // print
                     str_ = sizeof(input_char_type) == 1 ?
-                        "[\x20-\x7e]" : R"([\p{C}])";
+                        "[\x20-\x7e]" : R"([^\p{C}])";
                 }
                 else
                 {
-- 
2.43.0


From bfe70038f849b82f856aebda131ea557895c5916 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:05:23 +0000
Subject: [PATCH 42/46] fix: letters whose case pairs alternate (such as U+010C
 and U+010D) were not folded

---
 .../parser/tokeniser/re_tokeniser_helper.hpp     | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
index f496586..4b51fa4 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
@@ -267,14 +267,16 @@ namespace lexertl::detail
                     }
                     else
                     {
-                        const index_type first_ = ptr_->to.second +
+                        // Mapping runs backwards
+                        const index_type second_ = ptr_->to.first -
                             (range_.first - ptr_->from.first);
 
-                        out_.insert(range(first_,
+                        out_.insert(range(
                             range_.second > ptr_->from.second ?
-                            ptr_->to.first :
-                            static_cast<index_type>(ptr_->to.second +
-                                (range_.second - ptr_->from.first))));
+                            ptr_->to.second :
+                            static_cast<index_type>(ptr_->to.first -
+                                (range_.second - ptr_->from.first)),
+                            second_));
                     }
                 }
                 else if (range_.second >= ptr_->from.first &&
@@ -289,10 +291,10 @@ namespace lexertl::detail
                     }
                     else
                     {
-                        const index_type second_ = ptr_->to.second +
+                        const index_type first_ = ptr_->to.first -
                             (range_.second - ptr_->from.first);
 
-                        out_.insert(range(ptr_->to.second, second_));
+                        out_.insert(range(first_, ptr_->to.first));
                     }
                 }
                 // Either range fully encompasses from range or not at all.
-- 
2.43.0


From 8b88cac5f31dfa68e44f99807ba88373bca8ad1d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:10:25 +0000
Subject: [PATCH 43/46] fix: \p{Lo}, \p{Co} and \p{Cs} held only the ends of
 the large ranges

---
 gen_unicode_hpp/main.cpp                     | 15 +++++++-
 include/lexertl/parser/tokeniser/unicode.hpp | 40 ++++++++++----------
 2 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/gen_unicode_hpp/main.cpp b/gen_unicode_hpp/main.cpp
index e35bfaa..b28afc3 100644
--- a/gen_unicode_hpp/main.cpp
+++ b/gen_unicode_hpp/main.cpp
@@ -16,9 +16,12 @@ void lex_unicode_data(lexertl::memory_file& mf_, std::ostream& os_,
 	const char* start_ = mf_.data();
 	const char* end_ = start_ + mf_.size();
 	lexertl::cmatch results_(start_, end_);
-	enum { eNumber = 1, eName };
+	enum { eNumber = 1, eName, eLast };
 
 	std::size_t num_ = 0;
+	// Start of the current range and the number before this one
+	std::size_t first_ = 0;
+	std::size_t prev_ = 0;
 	using string_token = lexertl::basic_string_token<std::size_t>;
 	using map = std::map<std::string, string_token>;
 	map map_;
@@ -28,6 +31,8 @@ void lex_unicode_data(lexertl::memory_file& mf_, std::ostream& os_,
 	rules_.push_state("FINISH");
 
 	rules_.push("INITIAL", "^[A-F0-9]+", eNumber, "LONG_NAME");
+	// e.g. <CJK Ideograph, First> is followed by <CJK Ideograph, Last>
+	rules_.push("LONG_NAME", ";<[^;]+, Last>;", eLast, "SHORT_NAME");
 	rules_.push("LONG_NAME", ";[^;]+;", lexertl::rules::skip(), "SHORT_NAME");
 	rules_.push("SHORT_NAME", "[A-Z][a-z]?", eName, "FINISH");
 	rules_.push("FINISH", ".*\n", lexertl::rules::skip(), "INITIAL");
@@ -42,14 +47,20 @@ void lex_unicode_data(lexertl::memory_file& mf_, std::ostream& os_,
 			std::stringstream ss_;
 
 			ss_ << results_.str();
+			prev_ = num_;
 			ss_ >> std::hex >> num_;
+			first_ = num_;
+		}
+		else if (results_.id == eLast)
+		{
+			first_ = prev_;
 		}
 		else if (results_.id == eName)
 		{
 			const std::string name_ = results_.str();
 
 			map_[name_].insert(lexertl::basic_string_token<std::size_t>::range
-			(num_, num_));
+			(first_, num_));
 		}
 	} while (results_.id != 0);
 
diff --git a/include/lexertl/parser/tokeniser/unicode.hpp b/include/lexertl/parser/tokeniser/unicode.hpp
index 00e1d41..853def4 100644
--- a/include/lexertl/parser/tokeniser/unicode.hpp
+++ b/include/lexertl/parser/tokeniser/unicode.hpp
@@ -54,12 +54,12 @@
 
     static const char* Co()
     {
-        return "[\\xe000\\xf8ff\\xf0000\\xffffd\\x100000\\x10fffd]";
+        return "[\\xe000-\\xf8ff\\xf0000-\\xffffd\\x100000-\\x10fffd]";
     }
 
     static const char* Cs()
     {
-        return "[\\xd800\\xdb7f\\xdb80\\xdbff\\xdc00\\xdfff]";
+        return "[\\xd800-\\xdfff]";
     }
 
     static const char* Ll()
@@ -217,8 +217,8 @@
             "\\x2da8-\\x2dae\\x2db0-\\x2db6\\x2db8-\\x2dbe\\x2dc0-\\x2dc6"
             "\\x2dc8-\\x2dce\\x2dd0-\\x2dd6\\x2dd8-\\x2dde\\x3006\\x303c"
             "\\x3041-\\x3096\\x309f\\x30a1-\\x30fa\\x30ff\\x3105-\\x312f"
-            "\\x3131-\\x318e\\x31a0-\\x31bf\\x31f0-\\x31ff\\x3400\\x4dbf\\x4e00"
-            "\\x9fff-\\xa014\\xa016-\\xa48c\\xa4d0-\\xa4f7\\xa500-\\xa60b"
+            "\\x3131-\\x318e\\x31a0-\\x31bf\\x31f0-\\x31ff\\x3400-\\x4dbf"
+            "\\x4e00-\\xa014\\xa016-\\xa48c\\xa4d0-\\xa4f7\\xa500-\\xa60b"
             "\\xa610-\\xa61f\\xa62a\\xa62b\\xa66e\\xa6a0-\\xa6e5\\xa78f\\xa7f7"
             "\\xa7fb-\\xa801\\xa803-\\xa805\\xa807-\\xa80a\\xa80c-\\xa822"
             "\\xa840-\\xa873\\xa882-\\xa8b3\\xa8f2-\\xa8f7\\xa8fb\\xa8fd\\xa8fe"
@@ -228,7 +228,7 @@
             "\\xaa7a\\xaa7e-\\xaaaf\\xaab1\\xaab5\\xaab6\\xaab9-\\xaabd\\xaac0"
             "\\xaac2\\xaadb\\xaadc\\xaae0-\\xaaea\\xaaf2\\xab01-\\xab06"
             "\\xab09-\\xab0e\\xab11-\\xab16\\xab20-\\xab26\\xab28-\\xab2e"
-            "\\xabc0-\\xabe2\\xac00\\xd7a3\\xd7b0-\\xd7c6\\xd7cb-\\xd7fb"
+            "\\xabc0-\\xabe2\\xac00-\\xd7a3\\xd7b0-\\xd7c6\\xd7cb-\\xd7fb"
             "\\xf900-\\xfa6d\\xfa70-\\xfad9\\xfb1d\\xfb1f-\\xfb28"
             "\\xfb2a-\\xfb36\\xfb38-\\xfb3c\\xfb3e\\xfb40\\xfb41\\xfb43\\xfb44"
             "\\xfb46-\\xfbb1\\xfbd3-\\xfd3d\\xfd50-\\xfd8f\\xfd92-\\xfdc7"
@@ -281,26 +281,26 @@
             "\\x14400-\\x14646\\x16100-\\x1611d\\x16800-\\x16a38"
             "\\x16a40-\\x16a5e\\x16a70-\\x16abe\\x16ad0-\\x16aed"
             "\\x16b00-\\x16b2f\\x16b63-\\x16b77\\x16b7d-\\x16b8f"
-            "\\x16d43-\\x16d6a\\x16f00-\\x16f4a\\x16f50\\x17000"
-            "\\x187ff-\\x18cd5\\x18cff\\x18d00\\x18d1e\\x18d80-\\x18df2"
-            "\\x1b000-\\x1b122\\x1b132\\x1b150-\\x1b152\\x1b155"
-            "\\x1b164-\\x1b167\\x1b170-\\x1b2fb\\x1bc00-\\x1bc6a"
-            "\\x1bc70-\\x1bc7c\\x1bc80-\\x1bc88\\x1bc90-\\x1bc99\\x1df0a"
-            "\\x1e100-\\x1e12c\\x1e14e\\x1e290-\\x1e2ad\\x1e2c0-\\x1e2eb"
-            "\\x1e4d0-\\x1e4ea\\x1e5d0-\\x1e5ed\\x1e5f0\\x1e6c0-\\x1e6de"
-            "\\x1e6e0-\\x1e6e2\\x1e6e4\\x1e6e5\\x1e6e7-\\x1e6ed"
-            "\\x1e6f0-\\x1e6f4\\x1e6fe\\x1e7e0-\\x1e7e6\\x1e7e8-\\x1e7eb"
-            "\\x1e7ed\\x1e7ee\\x1e7f0-\\x1e7fe\\x1e800-\\x1e8c4"
-            "\\x1ee00-\\x1ee03\\x1ee05-\\x1ee1f\\x1ee21\\x1ee22\\x1ee24\\x1ee27"
+            "\\x16d43-\\x16d6a\\x16f00-\\x16f4a\\x16f50\\x17000-\\x18cd5"
+            "\\x18cff-\\x18d1e\\x18d80-\\x18df2\\x1b000-\\x1b122\\x1b132"
+            "\\x1b150-\\x1b152\\x1b155\\x1b164-\\x1b167\\x1b170-\\x1b2fb"
+            "\\x1bc00-\\x1bc6a\\x1bc70-\\x1bc7c\\x1bc80-\\x1bc88"
+            "\\x1bc90-\\x1bc99\\x1df0a\\x1e100-\\x1e12c\\x1e14e"
+            "\\x1e290-\\x1e2ad\\x1e2c0-\\x1e2eb\\x1e4d0-\\x1e4ea"
+            "\\x1e5d0-\\x1e5ed\\x1e5f0\\x1e6c0-\\x1e6de\\x1e6e0-\\x1e6e2"
+            "\\x1e6e4\\x1e6e5\\x1e6e7-\\x1e6ed\\x1e6f0-\\x1e6f4\\x1e6fe"
+            "\\x1e7e0-\\x1e7e6\\x1e7e8-\\x1e7eb\\x1e7ed\\x1e7ee"
+            "\\x1e7f0-\\x1e7fe\\x1e800-\\x1e8c4\\x1ee00-\\x1ee03"
+            "\\x1ee05-\\x1ee1f\\x1ee21\\x1ee22\\x1ee24\\x1ee27"
             "\\x1ee29-\\x1ee32\\x1ee34-\\x1ee37\\x1ee39\\x1ee3b\\x1ee42\\x1ee47"
             "\\x1ee49\\x1ee4b\\x1ee4d-\\x1ee4f\\x1ee51\\x1ee52\\x1ee54\\x1ee57"
             "\\x1ee59\\x1ee5b\\x1ee5d\\x1ee5f\\x1ee61\\x1ee62\\x1ee64"
             "\\x1ee67-\\x1ee6a\\x1ee6c-\\x1ee72\\x1ee74-\\x1ee77"
             "\\x1ee79-\\x1ee7c\\x1ee7e\\x1ee80-\\x1ee89\\x1ee8b-\\x1ee9b"
-            "\\x1eea1-\\x1eea3\\x1eea5-\\x1eea9\\x1eeab-\\x1eebb\\x20000"
-            "\\x2a6df\\x2a700\\x2b73f\\x2b740\\x2b81d\\x2b820\\x2cead\\x2ceb0"
-            "\\x2ebe0\\x2ebf0\\x2ee5d\\x2f800-\\x2fa1d\\x30000\\x3134a\\x31350"
-            "\\x323af\\x323b0\\x33479]";
+            "\\x1eea1-\\x1eea3\\x1eea5-\\x1eea9\\x1eeab-\\x1eebb"
+            "\\x20000-\\x2a6df\\x2a700-\\x2b81d\\x2b820-\\x2cead"
+            "\\x2ceb0-\\x2ebe0\\x2ebf0-\\x2ee5d\\x2f800-\\x2fa1d"
+            "\\x30000-\\x3134a\\x31350-\\x33479]";
     }
 
     static const char* Lt()
-- 
2.43.0


From 2164558b2e31521edb363a4135cf83e0db48894e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:32:01 +0000
Subject: [PATCH 44/46] fix: dot labels with <, > or & were not valid

---
 include/lexertl/dot.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/lexertl/dot.hpp b/include/lexertl/dot.hpp
index f4269ed..5e6b273 100644
--- a/include/lexertl/dot.hpp
+++ b/include/lexertl/dot.hpp
@@ -144,6 +144,16 @@ namespace lexertl
                 out_ << '\\';
                 out_ << '\'';
                 break;
+            // Labels are HTML
+            case '&':
+                out_ << "&amp;";
+                break;
+            case '<':
+                out_ << "&lt;";
+                break;
+            case '>':
+                out_ << "&gt;";
+                break;
             default:
             {
                 if (ch_ < 32 || ch_ > 126)
-- 
2.43.0


From 115761ed43780fb2914036eb2f407653d6dc93e6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 45/46] fix: an abstemious operator at the end of an
 alternative joined it with the next one

With ab??|c, pruning b?? also removed the '|', leaving the regex ac.
Only an alternative that has become empty may be removed.
---
 include/lexertl/abstemious.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/abstemious.hpp b/include/lexertl/abstemious.hpp
index ebbc7cd..9f08b14 100644
--- a/include/lexertl/abstemious.hpp
+++ b/include/lexertl/abstemious.hpp
@@ -179,7 +179,19 @@ namespace lexertl
             iter_ = tokens_.erase(iter_, tokens_.begin() + idx_ + 1);
 
             if (iter_->_type == detail::token_type::OR)
-                tokens_.erase(iter_);
+            {
+                // Only remove an alternative that is now empty.
+                switch ((iter_ - 1)->_type)
+                {
+                case detail::token_type::BEGIN:
+                case detail::token_type::OPENPAREN:
+                case detail::token_type::OR:
+                    tokens_.erase(iter_);
+                    break;
+                default:
+                    break;
+                }
+            }
             else if (iter_->_type != detail::token_type::BEGIN &&
                 (iter_ - 1)->_type == detail::token_type::OR)
             {
-- 
2.43.0


From 7a80a73111f6fd95188c2c80757f2809a1ee124a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:58:59 +0000
Subject: [PATCH 46/46] fix: a repeat and a '?' with a comment or blank between
 them was accepted and the build then failed

The tokeniser gives *? and the like as one token, so '?' never follows a
repeat: say so in the precedence table instead of letting the parser run
into an internal error (or assert).
---
 include/lexertl/parser/tokeniser/re_token.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_token.hpp b/include/lexertl/parser/tokeniser/re_token.hpp
index d63334a..63774e3 100644
--- a/include/lexertl/parser/tokeniser/re_token.hpp
+++ b/include/lexertl/parser/tokeniser/re_token.hpp
@@ -83,13 +83,13 @@ namespace lexertl::detail
                 /*MACRO*/  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>',
                 /*  (  */  ' ', '=', '<', '<', '<', '<', '<', ' ', ' ', '<', '<', '<', '<', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ',
                 /*  )  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>',
-                /*  ?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /*  ?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* ??  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
-                /*  *  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /*  *  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* *?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
-                /*  +  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /*  +  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* +?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
-                /* n,m */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /* n,m */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* n,m?*/  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* END */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' '
             };
-- 
2.43.0

