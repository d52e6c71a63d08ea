From 6da4c980f2e996f736f684be0f894aa31209b10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 01/33] Add a simulation hook for the size of static buffers
 (off by default)

---
 src/log_surgeon/Buffer.hpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/log_surgeon/Buffer.hpp b/src/log_surgeon/Buffer.hpp
index 2a35195..b438d79 100644
--- a/src/log_surgeon/Buffer.hpp
+++ b/src/log_surgeon/Buffer.hpp
@@ -2,6 +2,9 @@
 #define LOG_SURGEON_BUFFER_HPP
 
 #include <cstdint>
+#ifdef LOG_SURGEON_SIM
+    #include <memory>
+#endif
 #include <vector>
 
 #include <log_surgeon/Constants.hpp>
@@ -52,6 +55,15 @@ public:
 
     [[nodiscard]] auto static_size() const -> uint32_t { return cStaticByteBuffSize; }
 
+#ifdef LOG_SURGEON_SIM
+    /**
+     * Simulation hook (off by default): the number of items of static storage given to the buffers
+     * constructed from now on by the calling thread, so that a simulator can place the buffer
+     * boundaries anywhere in its input. Must be even and non-zero.
+     */
+    static inline thread_local uint32_t sim_static_size{log_surgeon::cStaticByteBuffSize};
+#endif
+
     [[nodiscard]] auto size() const -> uint32_t { return m_active_size; }
 
     auto reset() -> void {
@@ -85,10 +97,24 @@ public:
     }
 
 private:
+#ifdef LOG_SURGEON_SIM
+    struct SimStorage {
+        operator Item*() { return m_items.get(); }
+
+        std::unique_ptr<Item[]> m_items;
+    };
+
+    // Shadows the constant of the same name
+    uint32_t cStaticByteBuffSize{sim_static_size};
+#endif
     uint32_t m_pos{0};
     uint32_t m_active_size{cStaticByteBuffSize};
     std::vector<std::vector<Item>> m_dynamic_storages;
+#ifdef LOG_SURGEON_SIM
+    SimStorage m_static_storage{std::unique_ptr<Item[]>{new Item[cStaticByteBuffSize]}};
+#else
     Item m_static_storage[cStaticByteBuffSize];
+#endif
     Item* m_active_storage{m_static_storage};
 };
 }  // namespace log_surgeon
-- 
2.43.0


From c6127c946a32378a15d880059301bc0823b45faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 02/33] fix: read a schema string once instead of from its
 start at every read

---
 src/log_surgeon/SchemaParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 5676026..028e751 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -84,8 +84,8 @@ auto SchemaParser::try_schema_file(string const& schema_file_path) -> unique_ptr
 }
 
 auto SchemaParser::try_schema_string(string_view const schema_string) -> unique_ptr<SchemaAST> {
+    size_t unparsed_string_pos = 0;
     Reader reader{[&](char* dst_buf, size_t count, size_t& read_to) -> ErrorCode {
-        uint32_t unparsed_string_pos = 0;
         std::span<char> const buf{dst_buf, count};
         if (unparsed_string_pos + count > schema_string.length()) {
             count = schema_string.length() - unparsed_string_pos;
-- 
2.43.0


From 9160ff840bc4b50621e3db7c591ffe6d01624f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 03/33] fix: do not treat a short read as the end of the input,
 keep bytes read before an error

---
 src/log_surgeon/ParserInputBuffer.cpp | 42 ++++++++++++++++-----------
 src/log_surgeon/ParserInputBuffer.hpp |  2 ++
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/log_surgeon/ParserInputBuffer.cpp b/src/log_surgeon/ParserInputBuffer.cpp
index 15fde34..7b8da85 100644
--- a/src/log_surgeon/ParserInputBuffer.cpp
+++ b/src/log_surgeon/ParserInputBuffer.cpp
@@ -13,6 +13,7 @@ void ParserInputBuffer::reset() {
     m_log_fully_consumed = false;
     m_finished_reading_input = false;
     m_pos_last_read_char = 0;
+    m_num_bytes_in_half = 0;
     m_last_read_first_half = false;
     m_storage.reset();
     m_consumed_pos = m_storage.size() - 1;
@@ -33,28 +34,35 @@ auto ParserInputBuffer::read_is_safe() -> bool {
 }
 
 auto ParserInputBuffer::read(Reader& reader) -> ErrorCode {
-    size_t bytes_read{0};
     // read into the correct half of the buffer
-    uint32_t read_offset{0};
-    if (m_last_read_first_half) {
-        read_offset = m_storage.size() / 2;
-    }
-    if (ErrorCode err = m_storage.read(reader, read_offset, m_storage.size() / 2, bytes_read);
-        ErrorCode::Success != err)
-    {
-        if (ErrorCode::EndOfFile == err) {
+    uint32_t const half_size{m_storage.size() / 2};
+    uint32_t const read_offset{m_last_read_first_half ? half_size : 0};
+    // A reader may deliver fewer bytes than requested, so only the end of the
+    // file or an empty read indicates that the input source is finished. If
+    // the reader fails the bytes it already delivered are kept.
+    while (m_num_bytes_in_half < half_size) {
+        size_t bytes_read{0};
+        ErrorCode const err = m_storage.read(
+                reader,
+                read_offset + m_num_bytes_in_half,
+                half_size - m_num_bytes_in_half,
+                bytes_read
+        );
+        if (ErrorCode::Success != err && ErrorCode::EndOfFile != err) {
+            return err;
+        }
+        m_num_bytes_in_half += bytes_read;
+        if (ErrorCode::EndOfFile == err || 0 == bytes_read) {
             m_finished_reading_input = true;
+            break;
         }
-        return err;
     }
-    m_last_read_first_half = !m_last_read_first_half;
-    // TODO: This is not a portable check for certain forms of IO
-    // A method from Reader should be used to check if the input source is
-    // finished
-    if (bytes_read < m_storage.size() / 2) {
-        m_finished_reading_input = true;
+    if (0 == m_num_bytes_in_half) {
+        return ErrorCode::EndOfFile;
     }
-    m_pos_last_read_char += bytes_read;
+    m_last_read_first_half = !m_last_read_first_half;
+    m_pos_last_read_char += m_num_bytes_in_half;
+    m_num_bytes_in_half = 0;
     if (m_pos_last_read_char > m_storage.size()) {
         m_pos_last_read_char -= m_storage.size();
     }
diff --git a/src/log_surgeon/ParserInputBuffer.hpp b/src/log_surgeon/ParserInputBuffer.hpp
index 3d5f735..40a7065 100644
--- a/src/log_surgeon/ParserInputBuffer.hpp
+++ b/src/log_surgeon/ParserInputBuffer.hpp
@@ -126,6 +126,8 @@ private:
 private:
     // the position of the last character read into the buffer
     uint32_t m_pos_last_read_char{0};
+    // the number of bytes already read into the half currently being filled
+    uint32_t m_num_bytes_in_half{0};
     bool m_last_read_first_half{false};
     // the log has been completely read into the buffer
     bool m_finished_reading_input{false};
-- 
2.43.0


From fbd30e222753fe7481db2e2b7fd895c174543f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 04/33] fix: read more input when only the first byte of the
 buffer is consumed

---
 src/log_surgeon/LogParser.cpp         | 6 +++++-
 src/log_surgeon/ParserInputBuffer.cpp | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index b98e712..1333248 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -245,7 +245,11 @@ auto LogParser::parse(LogParser::ParsingAction& parsing_action) -> ErrorCode {
         if (false == output_buffer->has_timestamp()
             && token_type == (uint32_t)SymbolId::TokenNewline)
         {
-            m_input_buffer.set_consumed_pos(output_buffer->get_curr_token().m_end_pos);
+            // The end of the token is the start of the next log message
+            uint32_t const end_pos{output_buffer->get_curr_token().m_end_pos};
+            m_input_buffer.set_consumed_pos(
+                    (0 == end_pos ? m_input_buffer.storage().size() : end_pos) - 1
+            );
             output_buffer->advance_to_next_token();
             parsing_action = ParsingAction::Compress;
             return ErrorCode::Success;
diff --git a/src/log_surgeon/ParserInputBuffer.cpp b/src/log_surgeon/ParserInputBuffer.cpp
index 7b8da85..cfe46b8 100644
--- a/src/log_surgeon/ParserInputBuffer.cpp
+++ b/src/log_surgeon/ParserInputBuffer.cpp
@@ -26,7 +26,7 @@ auto ParserInputBuffer::read_is_safe() -> bool {
     // Check if the last log message ends in the buffer half last read.
     // This means the other half of the buffer has already been fully used.
     if ((!m_last_read_first_half && m_consumed_pos > m_storage.size() / 2)
-        || (m_last_read_first_half && m_consumed_pos < m_storage.size() / 2 && m_consumed_pos > 0))
+        || (m_last_read_first_half && m_consumed_pos < m_storage.size() / 2))
     {
         return true;
     }
-- 
2.43.0


From d7771e1228fd54ba77dd3f78cf371c382b4c308d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 05/33] fix: keep the lexer's positions when the input buffer
 grows at its wrap around

---
 src/log_surgeon/Lexer.tpp | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 8a8aeb3..0537e14 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -19,22 +19,17 @@
 namespace log_surgeon {
 template <typename NFAStateType, typename DFAStateType>
 void Lexer<NFAStateType, DFAStateType>::flip_states(uint32_t old_storage_size) {
-    if (m_match_pos >= old_storage_size / 2) {
-        m_match_pos -= old_storage_size / 2;
-    } else {
-        m_match_pos += old_storage_size / 2;
-    }
-    // TODO when m_start_pos == old_storage_size / 2, theres two possible cases
-    // currently so both options are potentially wrong
-    if (m_start_pos > old_storage_size / 2) {
-        m_start_pos -= old_storage_size / 2;
-    } else {
-        m_start_pos += old_storage_size / 2;
-    }
-    if (m_last_match_pos >= old_storage_size / 2) {
-        m_last_match_pos -= old_storage_size / 2;
-    } else {
-        m_last_match_pos += old_storage_size / 2;
+    // The buffer is flipped when the second half holds the older data, so the
+    // position between the two halves is where the data ends. It can not be
+    // where the log event starts, since the first half would not have been read
+    // into before the second half was partially consumed.
+    uint32_t const half_old_storage_size{old_storage_size / 2};
+    for (uint32_t* pos : {&m_match_pos, &m_start_pos, &m_last_match_pos}) {
+        if (*pos > half_old_storage_size) {
+            *pos -= half_old_storage_size;
+        } else {
+            *pos += half_old_storage_size;
+        }
     }
 }
 
@@ -308,10 +303,13 @@ auto Lexer<NFAStateType, DFAStateType>::increase_buffer_capacity(ParserInputBuff
     if (old_storage_size < input_buffer.storage().size()) {
         if (flipped_static_buffer) {
             flip_states(old_storage_size);
-        }
-        if (0 == m_last_match_pos) {
-            m_last_match_pos = old_storage_size;
-            m_start_pos = old_storage_size;
+        } else {
+            // The end of the data is where the old buffer wrapped around
+            for (uint32_t* pos : {&m_match_pos, &m_start_pos, &m_last_match_pos}) {
+                if (0 == *pos) {
+                    *pos = old_storage_size;
+                }
+            }
         }
     }
 }
-- 
2.43.0


From 46275d2b8f2aee8661c27a086cc493e9647740d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 06/33] fix: do not resume a failed match after the lexer asked
 for more data

This also allows schemas that only have delimiters, for which nothing can match at
the start of the file.
---
 src/log_surgeon/Lexer.tpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 0537e14..79f6696 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -68,14 +68,14 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
             return err;
         }
         if ((m_is_delimiter[next_char] || input_buffer.log_fully_consumed() || !m_has_delimiters)
-            && state->is_accepting())
+            && nullptr != state && state->is_accepting())
         {
             m_match = true;
             m_type_ids = &(state->get_matching_variable_ids());
             m_match_pos = prev_byte_buf_pos;
             m_match_line = m_line;
         }
-        DFAStateType* next = state->next(next_char);
+        DFAStateType* next = nullptr != state ? state->next(next_char) : nullptr;
         if (next_char == '\n') {
             m_line++;
             if (m_has_delimiters && !m_match) {
@@ -146,8 +146,10 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
                 if (ErrorCode err = input_buffer.get_next_character(next_char);
                     ErrorCode::Success != err)
                 {
+                    // continue with a state from which nothing matches, as the
+                    // characters skipped so far can not be part of a variable
                     m_asked_for_more_data = true;
-                    m_prev_state = state;
+                    m_prev_state = nullptr;
                     return err;
                 }
             }
-- 
2.43.0


From 9ce9ab1525b2e2de7d53d7fc86ebd3b36201fefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 07/33] fix: order the types of a token by rule instead of by
 heap address

The variables a DFA state matches were listed in the order of the addresses of
the NFA states, so which type a token got when several rules match it depended
on the heap layout of the process.
---
 src/log_surgeon/Lexer.tpp                    |  8 +++++---
 src/log_surgeon/finite_automata/RegexDFA.hpp |  7 ++++++-
 src/log_surgeon/finite_automata/RegexDFA.tpp |  9 ++++++---
 src/log_surgeon/finite_automata/RegexNFA.hpp | 16 ++++++++++++++++
 4 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 79f6696..e2df9ee 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -433,9 +433,11 @@ auto Lexer<NFAStateType, DFAStateType>::nfa_to_dfa(finite_automata::RegexNFA<NFA
             = std::make_unique<finite_automata::RegexDFA<DFAStateType>>();
     std::map<StateSet, DFAStateType*> dfa_states;
     std::stack<StateSet> unmarked_sets;
-    auto create_dfa_state
-            = [&dfa, &dfa_states, &unmarked_sets](StateSet const& set) -> DFAStateType* {
-        DFAStateType* state = dfa->new_state(set);
+    auto const accepting_nfa_states = nfa.get_accepting_states();
+    auto create_dfa_state = [&dfa, &dfa_states, &unmarked_sets, &accepting_nfa_states](
+                                    StateSet const& set
+                            ) -> DFAStateType* {
+        DFAStateType* state = dfa->new_state(set, accepting_nfa_states);
         dfa_states[set] = state;
         unmarked_sets.push(set);
         return state;
diff --git a/src/log_surgeon/finite_automata/RegexDFA.hpp b/src/log_surgeon/finite_automata/RegexDFA.hpp
index b549d7c..ffd17d8 100644
--- a/src/log_surgeon/finite_automata/RegexDFA.hpp
+++ b/src/log_surgeon/finite_automata/RegexDFA.hpp
@@ -120,10 +120,15 @@ public:
      * Creates a new DFA state based on a set of NFA states and adds it to
      * m_states
      * @param nfa_state_set
+     * @param accepting_nfa_states The accepting states of the NFA, in the order in which the
+     * variables they match are to be listed in the new state.
      * @return DFAStateType*
      */
     template <typename NFAStateType>
-    auto new_state(std::set<NFAStateType*> const& nfa_state_set) -> DFAStateType*;
+    auto new_state(
+            std::set<NFAStateType*> const& nfa_state_set,
+            std::vector<NFAStateType*> const& accepting_nfa_states
+    ) -> DFAStateType*;
 
     auto get_root() const -> DFAStateType const* { return m_states.at(0).get(); }
 
diff --git a/src/log_surgeon/finite_automata/RegexDFA.tpp b/src/log_surgeon/finite_automata/RegexDFA.tpp
index 458a556..8dc1e29 100644
--- a/src/log_surgeon/finite_automata/RegexDFA.tpp
+++ b/src/log_surgeon/finite_automata/RegexDFA.tpp
@@ -40,12 +40,15 @@ auto RegexDFAStatePair<DFAState>::get_reachable_pairs(
 
 template <typename DFAStateType>
 template <typename NFAStateType>
-auto RegexDFA<DFAStateType>::new_state(std::set<NFAStateType*> const& nfa_state_set
+auto RegexDFA<DFAStateType>::new_state(
+        std::set<NFAStateType*> const& nfa_state_set,
+        std::vector<NFAStateType*> const& accepting_nfa_states
 ) -> DFAStateType* {
     m_states.emplace_back(std::make_unique<DFAStateType>());
     auto* dfa_state = m_states.back().get();
-    for (auto const* nfa_state : nfa_state_set) {
-        if (nfa_state->is_accepting()) {
+    // The set is ordered by the addresses of the states, so it can't determine the order.
+    for (auto* nfa_state : accepting_nfa_states) {
+        if (nfa_state_set.count(nfa_state) > 0) {
             dfa_state->add_matching_variable_id(nfa_state->get_matching_variable_id());
         }
     }
diff --git a/src/log_surgeon/finite_automata/RegexNFA.hpp b/src/log_surgeon/finite_automata/RegexNFA.hpp
index ba9791b..b3d46b2 100644
--- a/src/log_surgeon/finite_automata/RegexNFA.hpp
+++ b/src/log_surgeon/finite_automata/RegexNFA.hpp
@@ -82,6 +82,11 @@ public:
      */
     [[nodiscard]] auto serialize() const -> std::string;
 
+    /**
+     * @return The accepting states in the order in which the rules they belong to were added.
+     */
+    [[nodiscard]] auto get_accepting_states() const -> std::vector<NFAStateType const*>;
+
     auto add_root_interval(Interval interval, NFAStateType* dest_state) -> void {
         m_root->add_interval(interval, dest_state);
     }
@@ -194,6 +199,17 @@ auto RegexNFA<NFAStateType>::get_bfs_traversal_order() const -> std::vector<NFAS
     return visited_order;
 }
 
+template <typename NFAStateType>
+auto RegexNFA<NFAStateType>::get_accepting_states() const -> std::vector<NFAStateType const*> {
+    std::vector<NFAStateType const*> accepting_states;
+    for (auto const& state : m_states) {
+        if (state->is_accepting()) {
+            accepting_states.push_back(state.get());
+        }
+    }
+    return accepting_states;
+}
+
 template <typename NFAStateType>
 auto RegexNFA<NFAStateType>::serialize() const -> std::string {
     auto const traversal_order = get_bfs_traversal_order();
-- 
2.43.0


From 1826e0b492593602604c0b1f6ab1bd16a7ce9374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 08/33] fix: accept negated character classes in variable
 patterns

The start of file character is treated as a delimiter but is not part of the
schema, yet every variable whose pattern contains a negated class was refused
for matching it.
---
 src/log_surgeon/LogParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 1333248..5802fbf 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -98,7 +98,8 @@ void LogParser::add_rules(std::unique_ptr<SchemaAST> schema_ast) {
         bool contains_delimiter = false;
         uint32_t delimiter_name = 0;
         for (uint32_t delimiter : delimiters) {
-            if (is_possible_input[delimiter]) {
+            // The start of file character is not part of the schema's delimiters
+            if (utf8::cCharStartOfFile != delimiter && is_possible_input[delimiter]) {
                 contains_delimiter = true;
                 delimiter_name = delimiter;
                 break;
-- 
2.43.0


From 58c7e916234c754e2ed63349185907f7f2e89e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 09/33] fix: let zero repetitions of a regular expression match

An empty node was not added to the NFA at all, so the documented a* and a{0,N}
never matched zero repetitions.
---
 src/log_surgeon/finite_automata/RegexAST.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index beeb588..91f34fb 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -177,11 +177,9 @@ public:
         // Do nothing as an empty node contains no delimiters.
     }
 
-    auto add_to_nfa(
-            [[maybe_unused]] RegexNFA<NFAStateType>* nfa,
-            [[maybe_unused]] NFAStateType* end_state
-    ) const -> void override {
-        // Do nothing as adding an empty node to the NFA is a null operation.
+    auto add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const -> void override {
+        // An empty node matches without consuming any input.
+        nfa->get_root()->add_epsilon_transition(end_state);
     }
 
     [[nodiscard]] auto serialize() const -> std::u32string override;
-- 
2.43.0


From 96527643c439b3507ad6ab049530b2f2eca4ca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 10/33] fix: do not read a character of the empty token at the
 end of the input

The character lies beyond the data, and for a buffer parser beyond the user's
buffer.
---
 src/log_surgeon/LogParser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 5802fbf..5204ff9 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -234,15 +234,15 @@ auto LogParser::parse(LogParser::ParsingAction& parsing_action) -> ErrorCode {
         }
         output_buffer->set_curr_token(next_token);
         auto token_type = next_token.m_type_ids_ptr->at(0);
+        if (token_type == (uint32_t)SymbolId::TokenEnd) {
+            parsing_action = ParsingAction::CompressAndFinish;
+            return ErrorCode::Success;
+        }
         bool found_start_of_next_message
                 = (output_buffer->has_timestamp()
                    && token_type == (uint32_t)SymbolId::TokenNewlineTimestamp)
                   || (!output_buffer->has_timestamp() && next_token.get_char(0) == '\n'
                       && token_type != (uint32_t)SymbolId::TokenNewline);
-        if (token_type == (uint32_t)SymbolId::TokenEnd) {
-            parsing_action = ParsingAction::CompressAndFinish;
-            return ErrorCode::Success;
-        }
         if (false == output_buffer->has_timestamp()
             && token_type == (uint32_t)SymbolId::TokenNewline)
         {
-- 
2.43.0


From 487deb5ff8e92252f3bfd31e57f4622b899b5fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:47 +0000
Subject: [PATCH 11/33] fix: end a log event without a timestamp at its first
 token's newline

The rules for a newline token were only applied from the second token of a log
event on, so an empty line, or a line starting with a variable right after one,
was returned together with the line that follows it.
---
 src/log_surgeon/LogParser.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 5204ff9..5089a19 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -181,8 +181,18 @@ auto LogParser::parse(LogParser::ParsingAction& parsing_action) -> ErrorCode {
             if (ErrorCode err = get_next_symbol(next_token); ErrorCode::Success != err) {
                 return err;
             }
-            if (false == output_buffer->has_timestamp()
-                && next_token.m_type_ids_ptr->at(0) == (uint32_t)SymbolId::TokenNewlineTimestamp)
+            auto const first_token_type = next_token.m_type_ids_ptr->at(0);
+            if ((uint32_t)SymbolId::TokenNewline == first_token_type) {
+                // An empty line is a message with just the '\n' character
+                output_buffer->set_token(1, next_token);
+                output_buffer->set_pos(2);
+                m_input_buffer.set_consumed_pos(next_token.m_start_pos);
+                parsing_action = ParsingAction::Compress;
+                return ErrorCode::Success;
+            }
+            if ((uint32_t)SymbolId::TokenEnd != first_token_type
+                && (uint32_t)SymbolId::TokenFirstTimestamp != first_token_type
+                && '\n' == next_token.get_char(0))
             {
                 // TODO: combine the below with found_start_of_next_message
                 // into 1 function
-- 
2.43.0


From ff0e45d39ce7954626b036f849570ea44ecff038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 12/33] fix: look for variables in text that a failed start of
 file match went over

When the text at the start of the file began like a timestamp but turned out
not to be one, the variables inside that text were not found.
---
 src/log_surgeon/Lexer.hpp |  1 +
 src/log_surgeon/Lexer.tpp | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/log_surgeon/Lexer.hpp b/src/log_surgeon/Lexer.hpp
index ddb12cf..93207b0 100644
--- a/src/log_surgeon/Lexer.hpp
+++ b/src/log_surgeon/Lexer.hpp
@@ -158,6 +158,7 @@ private:
     bool m_has_delimiters{false};
     std::unique_ptr<finite_automata::RegexDFA<DFAStateType>> m_dfa;
     bool m_asked_for_more_data{false};
+    bool m_match_includes_start_of_file{false};
     DFAStateType const* m_prev_state{nullptr};
 };
 
diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index e2df9ee..8882a2e 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -58,6 +58,7 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
         m_match_pos = input_buffer.storage().pos();
         m_match_line = m_line;
         m_type_ids = nullptr;
+        m_match_includes_start_of_file = false;
     }
     while (true) {
         uint32_t prev_byte_buf_pos = input_buffer.storage().pos();
@@ -76,6 +77,17 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
             m_match_line = m_line;
         }
         DFAStateType* next = nullptr != state ? state->next(next_char) : nullptr;
+        if (m_match_includes_start_of_file && false == m_match
+            && (nullptr == next || '\n' == next_char || input_buffer.log_fully_consumed()))
+        {
+            // No rule matches the start of the file, but the characters read so far may still
+            // contain a match of their own
+            m_match_includes_start_of_file = false;
+            input_buffer.set_log_fully_consumed(false);
+            input_buffer.set_pos(m_start_pos);
+            state = m_dfa->get_root();
+            continue;
+        }
         if (next_char == '\n') {
             m_line++;
             if (m_has_delimiters && !m_match) {
@@ -328,6 +340,7 @@ void Lexer<NFAStateType, DFAStateType>::reset() {
     m_type_ids = nullptr;
     m_asked_for_more_data = false;
     m_prev_state = nullptr;
+    m_match_includes_start_of_file = false;
 }
 
 template <typename NFAStateType, typename DFAStateType>
@@ -335,6 +348,7 @@ void Lexer<NFAStateType, DFAStateType>::prepend_start_of_file_char(ParserInputBu
 ) {
     m_prev_state = m_dfa->get_root()->next(utf8::cCharStartOfFile);
     m_asked_for_more_data = true;
+    m_match_includes_start_of_file = true;
     m_start_pos = input_buffer.storage().pos();
     m_match_pos = input_buffer.storage().pos();
     m_match_line = m_line;
-- 
2.43.0


From 064a67d6f0a3387e36fe966c609483b38b9818d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 13/33] fix: forget the start of the next log event when a log
 parser is reset

After a reset in the middle of an input the first token of the new input's
first log event was taken from the old input.
---
 src/log_surgeon/LogParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 5089a19..6585ce2 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -157,6 +157,7 @@ void LogParser::add_rules(std::unique_ptr<SchemaAST> schema_ast) {
 }
 
 auto LogParser::reset() -> void {
+    m_has_start_of_log = false;
     m_input_buffer.reset();
     m_lexer.reset();
     m_lexer.prepend_start_of_file_char(m_input_buffer);
-- 
2.43.0


From 46ce27777d033fea9218315cc6687406115451fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 14/33] fix: continue the log event being parsed when a reader
 is read again after an error

The tokens found before the error were dropped, so the event returned after a
successful retry lacked its beginning.
---
 src/log_surgeon/ReaderParser.cpp | 8 +++++++-
 src/log_surgeon/ReaderParser.hpp | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/ReaderParser.cpp b/src/log_surgeon/ReaderParser.cpp
index bcb5c7d..f4580ee 100644
--- a/src/log_surgeon/ReaderParser.cpp
+++ b/src/log_surgeon/ReaderParser.cpp
@@ -14,12 +14,17 @@ ReaderParser::ReaderParser(std::string const& schema_file_path) : m_log_parser(s
 
 auto ReaderParser::reset_and_set_reader(Reader& reader) -> void {
     m_done = false;
+    m_event_in_progress = false;
     m_log_parser.reset();
     m_reader = reader;
 }
 
 auto ReaderParser::parse_next_event() -> ErrorCode {
-    m_log_parser.reset_log_event_view();
+    // If the reader failed before, continue with the log event being parsed then
+    if (false == m_event_in_progress) {
+        m_log_parser.reset_log_event_view();
+        m_event_in_progress = true;
+    }
     if (ErrorCode err = m_log_parser.read_into_input(m_reader);
         ErrorCode::Success != err && ErrorCode::EndOfFile != err)
     {
@@ -45,6 +50,7 @@ auto ReaderParser::parse_next_event() -> ErrorCode {
             return parse_error;
         }
     }
+    m_event_in_progress = false;
     return ErrorCode::Success;
 }
 }  // namespace log_surgeon
diff --git a/src/log_surgeon/ReaderParser.hpp b/src/log_surgeon/ReaderParser.hpp
index 9465efb..479ee57 100644
--- a/src/log_surgeon/ReaderParser.hpp
+++ b/src/log_surgeon/ReaderParser.hpp
@@ -82,6 +82,7 @@ private:
     Reader m_reader;
     LogParser m_log_parser;
     bool m_done{false};
+    bool m_event_in_progress{false};
 };
 }  // namespace log_surgeon
 
-- 
2.43.0


From 0b825d876a51746af7d812a15bb620c041a9d85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 15/33] fix: let a new log parser start in the same state as a
 reset one

A buffer parser that was not reset first did not recognize a timestamp or a
variable at the start of its input.
---
 src/log_surgeon/LogParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 6585ce2..01f6ec0 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -34,6 +34,7 @@ LogParser::LogParser(std::unique_ptr<SchemaAST> schema_ast) {
     add_rules(std::move(schema_ast));
     m_lexer.generate();
     m_log_event_view = make_unique<LogEventView>(*this);
+    reset();
 }
 
 auto LogParser::add_delimiters(unique_ptr<ParserAST> const& delimiters) -> void {
-- 
2.43.0


From e3474502e33833c7edcb68958d293a8e61bb5a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 16/33] fix: start the first token of a buffer parser at the
 given offset

After a reset the token started at the beginning of the buffer, so with any
other offset it included bytes that are not part of the log event.
---
 src/log_surgeon/Lexer.tpp     | 1 +
 src/log_surgeon/LogParser.cpp | 2 ++
 src/log_surgeon/LogParser.hpp | 5 +++++
 3 files changed, 8 insertions(+)

diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 8882a2e..d79b7e6 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -351,6 +351,7 @@ void Lexer<NFAStateType, DFAStateType>::prepend_start_of_file_char(ParserInputBu
     m_match_includes_start_of_file = true;
     m_start_pos = input_buffer.storage().pos();
     m_match_pos = input_buffer.storage().pos();
+    m_last_match_pos = input_buffer.storage().pos();
     m_match_line = m_line;
     m_type_ids = nullptr;
 }
diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 01f6ec0..2362715 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -158,6 +158,7 @@ void LogParser::add_rules(std::unique_ptr<SchemaAST> schema_ast) {
 }
 
 auto LogParser::reset() -> void {
+    m_has_started_lexing = false;
     m_has_start_of_log = false;
     m_input_buffer.reset();
     m_lexer.reset();
@@ -304,6 +305,7 @@ auto LogParser::get_symbol_id(std::string const& symbol) const -> std::optional<
 }
 
 auto LogParser::get_next_symbol(Token& token) -> ErrorCode {
+    m_has_started_lexing = true;
     return m_lexer.scan(m_input_buffer, token);
 }
 
diff --git a/src/log_surgeon/LogParser.hpp b/src/log_surgeon/LogParser.hpp
index 9133914..880e554 100644
--- a/src/log_surgeon/LogParser.hpp
+++ b/src/log_surgeon/LogParser.hpp
@@ -86,6 +86,10 @@ public:
     auto set_input_buffer(char* storage, uint32_t size, uint32_t pos, bool finished_reading_input)
             -> void {
         m_input_buffer.set_storage(storage, size, pos, finished_reading_input);
+        if (false == m_has_started_lexing) {
+            // The input starts at pos
+            m_lexer.prepend_start_of_file_char(m_input_buffer);
+        }
     }
 
     /**
@@ -162,6 +166,7 @@ private:
 
     // TODO: move ownership of the buffer to the lexer
     ParserInputBuffer m_input_buffer;
+    bool m_has_started_lexing{false};
     bool m_has_start_of_log{false};
     Token m_start_of_log_message{};
     std::unique_ptr<LogEventView> m_log_event_view{nullptr};
-- 
2.43.0


From ac5789c1c2b3ccce2598c6dd73c59c68a449ddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 17/33] fix: report the start of the next log event as a buffer
 parser's offset

The offset returned after a log event lay behind the first token of the next
one, and after an out of bounds error it was taken from a token that may not
belong to the log event, so a caller that refills its buffer lost input.
---
 src/log_surgeon/BufferParser.cpp |  7 +------
 src/log_surgeon/LogParser.hpp    | 19 +++++++++++++++++--
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/log_surgeon/BufferParser.cpp b/src/log_surgeon/BufferParser.cpp
index 292029e..97c120b 100644
--- a/src/log_surgeon/BufferParser.cpp
+++ b/src/log_surgeon/BufferParser.cpp
@@ -32,18 +32,13 @@ auto BufferParser::parse_next_event(
     LogParser::ParsingAction parsing_action{LogParser::ParsingAction::None};
     ErrorCode error_code = m_log_parser.parse_and_generate_metadata(parsing_action);
     if (ErrorCode::Success != error_code) {
-        if (0 != m_log_parser.get_log_event_view().m_log_output_buffer->pos()) {
-            offset = m_log_parser.get_log_event_view()
-                             .m_log_output_buffer->get_token(0)
-                             .m_start_pos;
-        }
         reset();
         return error_code;
     }
     if (LogParser::ParsingAction::CompressAndFinish == parsing_action) {
         m_done = true;
     }
-    offset = m_log_parser.get_input_pos();
+    offset = m_log_parser.get_next_log_event_pos();
     return ErrorCode::Success;
 }
 }  // namespace log_surgeon
diff --git a/src/log_surgeon/LogParser.hpp b/src/log_surgeon/LogParser.hpp
index 880e554..4c7a462 100644
--- a/src/log_surgeon/LogParser.hpp
+++ b/src/log_surgeon/LogParser.hpp
@@ -78,14 +78,21 @@ public:
      * is passed in.
      * @param storage A pointer to the new buffer to use as the input buffer.
      * @param size The size of the buffer pointed to by storage.
-     * @param pos The current position into the buffer (storage) to set.
+     * @param pos The position in the buffer (storage) of the next log event to
+     * parse.
      * @param finished_reading_input True if there is no more input left to
      * process, so the parser will finish consuming the entire buffer without
      * requesting more input data.
      */
     auto set_input_buffer(char* storage, uint32_t size, uint32_t pos, bool finished_reading_input)
             -> void {
-        m_input_buffer.set_storage(storage, size, pos, finished_reading_input);
+        // The first token of the log event may have been lexed already
+        m_input_buffer.set_storage(
+                storage,
+                size,
+                m_has_start_of_log ? m_start_of_log_message.m_end_pos : pos,
+                finished_reading_input
+        );
         if (false == m_has_started_lexing) {
             // The input starts at pos
             m_lexer.prepend_start_of_file_char(m_input_buffer);
@@ -97,6 +104,14 @@ public:
      */
     auto get_input_pos() -> uint32_t { return m_input_buffer.storage().pos(); }
 
+    /**
+     * @return the position inside the input buffer of the first log event that
+     * has not been parsed yet.
+     */
+    auto get_next_log_event_pos() -> uint32_t {
+        return m_has_start_of_log ? m_start_of_log_message.m_start_pos : get_input_pos();
+    }
+
     /**
      * Reads into the input buffer if only consumed data will be overwritten.
      * @param reader to use for IO.
-- 
2.43.0


From 957a3a44699f6a4f3470c372681a0aad60ffcf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 18/33] fix: do not treat the first character of a log event's
 first variable as a delimiter

A variable at the start of a log event has no delimiter in front of it, so its
first character ended up in the log type.
---
 src/log_surgeon/LogEvent.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LogEvent.cpp b/src/log_surgeon/LogEvent.cpp
index 709e62c..a1f7140 100644
--- a/src/log_surgeon/LogEvent.cpp
+++ b/src/log_surgeon/LogEvent.cpp
@@ -55,7 +55,10 @@ auto LogEventView::get_logtype() const -> std::string {
         if (token.m_type_ids_ptr->at(0) == (uint32_t)SymbolId::TokenUncaughtString) {
             logtype += token.to_string_view();
         } else {
-            if ((uint32_t)SymbolId::TokenNewline != token.m_type_ids_ptr->at(0)) {
+            // A variable at the start of the log event may have no delimiter
+            if ((uint32_t)SymbolId::TokenNewline != token.m_type_ids_ptr->at(0)
+                && m_log_parser.m_lexer.is_delimiter(static_cast<uint8_t>(token.get_char(0))))
+            {
                 logtype += token.get_delimiter();
             }
             logtype += "<";
-- 
2.43.0


From 8038c9b099c192567acb8037a86772d1f585d605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 19/33] fix: report a log event that ends in a newline and a
 variable as multiline

---
 src/log_surgeon/LogParser.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 2362715..439bf3a 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -322,10 +322,12 @@ auto LogParser::generate_log_event_view_metadata() -> void {
             first_newline_pos = i;
         }
     }
-    // To be a multiline log there must be at least one token between the
-    // newline token and the last token in the output buffer.
+    // To be a multiline log there must be at least one character after the
+    // newline, in the same token or in a later one.
     if (m_log_event_view->m_log_output_buffer->has_timestamp() && 0 < first_newline_pos
-        && first_newline_pos + 1 < m_log_event_view->m_log_output_buffer->pos())
+        && (first_newline_pos + 1 < m_log_event_view->m_log_output_buffer->pos()
+            || 1 < m_log_event_view->m_log_output_buffer->get_token(first_newline_pos).get_length())
+    )
     {
         m_log_event_view->set_multiline(true);
     }
-- 
2.43.0


From 34d947dcd8fbcdd13796d5555bf724333623d4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 20/33] fix: keep the first token of a log event without a
 timestamp when copying it

The tokens were copied one position too low, so the copy's text and log type
lacked its first token.
---
 src/log_surgeon/LogEvent.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LogEvent.cpp b/src/log_surgeon/LogEvent.cpp
index a1f7140..685a158 100644
--- a/src/log_surgeon/LogEvent.cpp
+++ b/src/log_surgeon/LogEvent.cpp
@@ -76,6 +76,8 @@ LogEvent::LogEvent(LogEventView const& src) : LogEventView{src.get_log_parser()}
     uint32_t start = 0;
     if (nullptr == src.get_timestamp()) {
         start = 1;
+        // The first token is unused
+        m_log_output_buffer->set_pos(start);
     }
     uint32_t buffer_size{0};
     for (uint32_t i = start; i < src.get_log_output_buffer()->pos(); i++) {
@@ -105,7 +107,7 @@ LogEvent::LogEvent(LogEventView const& src) : LogEventView{src.get_log_parser()}
         m_log_output_buffer->set_curr_token(copied_token);
         m_log_output_buffer->advance_to_next_token();
     }
-    for (uint32_t i = 0; i < get_log_output_buffer()->pos(); i++) {
+    for (uint32_t i = start; i < get_log_output_buffer()->pos(); i++) {
         Token& token = get_log_output_buffer()->get_mutable_token(i);
         auto const& token_types = *token.m_type_ids_ptr;
         add_token(token_types[0], &token);
-- 
2.43.0


From 6bc91b0939a97fc2cad680a7f9d89ed8b5ec3c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 21/33] fix: give each schema parser its own storage for child
 symbols

The storage was shared by all parsers of the process, limited to 10000 symbols
and not reset when parsing failed, so a long rule, or a number of schemas that
do not parse, overflowed it, and parsers in different threads overwrote each
other's symbols.
---
 src/log_surgeon/LALR1Parser.cpp  | 18 ++++++++++-------
 src/log_surgeon/LALR1Parser.hpp  | 33 +++++++++++++++++++++++++-------
 src/log_surgeon/LALR1Parser.tpp  | 22 ++++++++++-----------
 src/log_surgeon/SchemaParser.cpp |  4 ++--
 4 files changed, 49 insertions(+), 28 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.cpp b/src/log_surgeon/LALR1Parser.cpp
index 5268091..1cde773 100644
--- a/src/log_surgeon/LALR1Parser.cpp
+++ b/src/log_surgeon/LALR1Parser.cpp
@@ -1,16 +1,20 @@
 #include "LALR1Parser.hpp"
 
 namespace log_surgeon {
-MatchedSymbol NonTerminal::m_all_children[cSizeOfAllChildren];
-
 ParserAST::~ParserAST() = default;
 
-uint32_t NonTerminal::m_next_children_start = 0;
-
-NonTerminal::NonTerminal(Production* p)
-        : m_children_start(NonTerminal::m_next_children_start),
+NonTerminal::NonTerminal(
+        Production* p,
+        std::vector<MatchedSymbol>& all_children,
+        uint32_t& next_children_start
+)
+        : m_all_children(&all_children),
+          m_children_start(next_children_start),
           m_production(p),
           m_ast(nullptr) {
-    NonTerminal::m_next_children_start += p->m_body.size();
+    next_children_start += p->m_body.size();
+    if (all_children.size() < next_children_start) {
+        all_children.resize(next_children_start);
+    }
 }
 }  // namespace log_surgeon
diff --git a/src/log_surgeon/LALR1Parser.hpp b/src/log_surgeon/LALR1Parser.hpp
index c31e78e..2832128 100644
--- a/src/log_surgeon/LALR1Parser.hpp
+++ b/src/log_surgeon/LALR1Parser.hpp
@@ -66,7 +66,18 @@ class NonTerminal {
 public:
     NonTerminal() : m_children_start(0), m_production(nullptr), m_ast(nullptr) {}
 
-    explicit NonTerminal(Production*);
+    /**
+     * @param p
+     * @param all_children The parser's storage for the children of all of its NonTerminals, which
+     * is grown if it's too small.
+     * @param next_children_start The position in all_children of this NonTerminal's children.
+     * Updated to be the position behind them.
+     */
+    NonTerminal(
+            Production* p,
+            std::vector<MatchedSymbol>& all_children,
+            uint32_t& next_children_start
+    );
 
     /**
      * Return the ith child's (body of production) MatchedSymbol as a Token.
@@ -76,8 +87,7 @@ public:
      * @return Token*
      */
     [[nodiscard]] auto token_cast(uint32_t i) const -> Token* {
-        assert(i < cSizeOfAllChildren);
-        return &std::get<Token>(NonTerminal::m_all_children[m_children_start + i]);
+        return &std::get<Token>(get_child(i));
     }
 
     /**
@@ -88,8 +98,15 @@ public:
      * @return NonTerminal*
      */
     [[nodiscard]] auto non_terminal_cast(uint32_t i) const -> NonTerminal* {
-        assert(i < cSizeOfAllChildren);
-        return &std::get<NonTerminal>(NonTerminal::m_all_children[m_children_start + i]);
+        return &std::get<NonTerminal>(get_child(i));
+    }
+
+    /**
+     * @param i
+     * @return The ith child's (body of production) MatchedSymbol
+     */
+    [[nodiscard]] auto get_child(uint32_t i) const -> MatchedSymbol& {
+        return (*m_all_children)[m_children_start + i];
     }
 
     /**
@@ -99,8 +116,7 @@ public:
      */
     auto get_parser_ast() -> std::unique_ptr<ParserAST>& { return m_ast; }
 
-    static MatchedSymbol m_all_children[];
-    static uint32_t m_next_children_start;
+    std::vector<MatchedSymbol>* m_all_children{nullptr};
     uint32_t m_children_start;
     Production* m_production;
     std::unique_ptr<ParserAST> m_ast;
@@ -287,6 +303,9 @@ protected:
     std::unordered_map<uint32_t, std::vector<Production*>> m_non_terminals;
     uint32_t m_root_production_id{0};
     ParserInputBuffer m_input_buffer;
+    // The children of the NonTerminals in m_parse_stack_matches
+    std::vector<MatchedSymbol> m_all_children;
+    uint32_t m_next_children_start{0};
 
 private:
     /**
diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index 2edfa29..0e1cafb 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -22,9 +22,7 @@ namespace {
                         [&line_num](Token& token) { line_num = token.m_line; },
                         [&symbols](NonTerminal& m) {
                             for (size_t i = 0; i < m.m_production->m_body.size(); i++) {
-                                symbols.push(std::move(
-                                        NonTerminal::m_all_children[m.m_children_start + i]
-                                ));
+                                symbols.push(std::move(m.get_child(i)));
                             }
                         }
                 },
@@ -543,10 +541,7 @@ auto LALR1Parser<NFAStateType, DFAStateType>::get_input_after_last_newline(
                         },
                         [&parse_stack_matches](NonTerminal& m) {
                             for (size_t i = 0; i < m.m_production->m_body.size(); i++) {
-                                assert(m.m_children_start + i < cSizeOfAllChildren);
-                                parse_stack_matches.push(std::move(
-                                        NonTerminal::m_all_children[m.m_children_start + i]
-                                ));
+                                parse_stack_matches.push(std::move(m.get_child(i)));
                             }
                         }
                 },
@@ -659,6 +654,8 @@ void LALR1Parser<NFAStateType, DFAStateType>::reset() {
     while (!m_parse_stack_matches.empty()) {
         m_parse_stack_matches.pop();
     }
+    m_all_children.clear();
+    m_next_children_start = 0;
     m_input_buffer.reset();
     this->m_lexer.reset();
 }
@@ -721,14 +718,15 @@ auto LALR1Parser<NFAStateType, DFAStateType>::parse_symbol(
                     },
                     [&ret, &next_token, this](Production* reduce) {
                         m_next_token = next_token;
-                        NonTerminal matched_non_terminal(reduce);
+                        NonTerminal matched_non_terminal(
+                                reduce,
+                                m_all_children,
+                                m_next_children_start
+                        );
                         size_t n = reduce->m_body.size();
                         for (size_t i = 0; i < n; i++) {
                             m_parse_stack_states.pop();
-                            assert((matched_non_terminal.m_children_start + n - i - 1)
-                                   < cSizeOfAllChildren);
-                            NonTerminal::m_all_children
-                                    [matched_non_terminal.m_children_start + n - i - 1]
+                            matched_non_terminal.get_child(n - i - 1)
                                     = std::move(m_parse_stack_matches.top());
                             m_parse_stack_matches.pop();
                         }
diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 028e751..fc5f57f 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -156,8 +156,8 @@ auto SchemaParser::existing_schema_rule(NonTerminal* m) -> unique_ptr<SchemaAST>
     unique_ptr<ParserAST>& r2 = m->non_terminal_cast(2)->get_parser_ast();
     schema_ast->add_schema_var(std::move(r2));
     // Can reset the buffers at this point and allow reading
-    if (NonTerminal::m_next_children_start > cSizeOfAllChildren / 2) {
-        NonTerminal::m_next_children_start = 0;
+    if (m_next_children_start > cSizeOfAllChildren / 2) {
+        m_next_children_start = 0;
     }
     return schema_ast;
 }
-- 
2.43.0


From e0bce51a087a2b81fa8c44cc0a1f0fa475a096dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 22/33] fix: initialize the table of special regex characters
 statically

It was filled by the first schema parser, so parsers created at the same time in
different threads raced, and a failed allocation left it incomplete.
---
 src/log_surgeon/SchemaParser.cpp | 18 ------------------
 src/log_surgeon/SchemaParser.hpp | 20 +++++++++++++++++++-
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index fc5f57f..1283d9d 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -417,24 +417,6 @@ static auto new_delimiter_string_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
 }
 
 void SchemaParser::add_lexical_rules() {
-    if (m_special_regex_characters.empty()) {
-        m_special_regex_characters.emplace('(', "Lparen");
-        m_special_regex_characters.emplace(')', "Rparen");
-        m_special_regex_characters.emplace('*', "Star");
-        m_special_regex_characters.emplace('+', "Plus");
-        m_special_regex_characters.emplace('-', "Dash");
-        m_special_regex_characters.emplace('.', "Dot");
-        m_special_regex_characters.emplace('[', "Lbracket");
-        m_special_regex_characters.emplace(']', "Rbracket");
-        m_special_regex_characters.emplace('\\', "Backslash");
-        m_special_regex_characters.emplace('^', "Hat");
-        m_special_regex_characters.emplace('{', "Lbrace");
-        m_special_regex_characters.emplace('}', "Rbrace");
-        m_special_regex_characters.emplace('|', "Vbar");
-        m_special_regex_characters.emplace('<', "Langle");
-        m_special_regex_characters.emplace('>', "Rangle");
-        m_special_regex_characters.emplace('?', "QuestionMark");
-    }
     for (auto const& [special_regex_char, special_regex_name] : m_special_regex_characters) {
         add_token(special_regex_name, special_regex_char);
     }
diff --git a/src/log_surgeon/SchemaParser.hpp b/src/log_surgeon/SchemaParser.hpp
index c508128..a263440 100644
--- a/src/log_surgeon/SchemaParser.hpp
+++ b/src/log_surgeon/SchemaParser.hpp
@@ -3,6 +3,7 @@
 
 #include <string>
 #include <string_view>
+#include <unordered_map>
 #include <utility>
 
 #include <log_surgeon/LALR1Parser.hpp>
@@ -127,7 +128,24 @@ private:
      */
     auto generate_schema_ast(Reader& reader) -> std::unique_ptr<SchemaAST>;
 
-    static inline std::unordered_map<char, std::string> m_special_regex_characters;
+    static inline std::unordered_map<char, std::string> const m_special_regex_characters{
+            {'(', "Lparen"},
+            {')', "Rparen"},
+            {'*', "Star"},
+            {'+', "Plus"},
+            {'-', "Dash"},
+            {'.', "Dot"},
+            {'[', "Lbracket"},
+            {']', "Rbracket"},
+            {'\\', "Backslash"},
+            {'^', "Hat"},
+            {'{', "Lbrace"},
+            {'}', "Rbrace"},
+            {'|', "Vbar"},
+            {'<', "Langle"},
+            {'>', "Rangle"},
+            {'?', "QuestionMark"},
+    };
 };
 }  // namespace log_surgeon
 
-- 
2.43.0


From c9e351dc418f4268d8dd53c2224249de4b678ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 23/33] fix: throw if a schema file can not be read to its end

An error while reading the file was taken for its end, so a parser could be
built from the part of the schema before the error.
---
 src/log_surgeon/LALR1Parser.tpp  | 9 ++++++++-
 src/log_surgeon/SchemaParser.cpp | 6 +-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index 0e1cafb..d2c19c9 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -629,7 +629,14 @@ auto LALR1Parser<NFAStateType, DFAStateType>::parse(Reader& reader) -> NonTermin
     m_parse_stack_states.push(m_root_item_set_ptr);
     bool accept = false;
     while (true) {
-        m_input_buffer.read_if_safe(reader);
+        if (ErrorCode const err = m_input_buffer.read_if_safe(reader);
+            ErrorCode::Success != err && ErrorCode::EndOfFile != err)
+        {
+            auto const code{static_cast<std::underlying_type_t<ErrorCode>>(err)};
+            throw std::runtime_error(
+                    "Failed to read the input, error_code=" + std::to_string(code) + "."
+            );
+        }
         Token next_terminal = get_next_symbol();
         if (parse_advance(next_terminal, &accept)) {
             break;
diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 1283d9d..2a55f1c 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -72,11 +72,7 @@ auto SchemaParser::try_schema_file(string const& schema_file_path) -> unique_ptr
     }
     SchemaParser sp;
     Reader reader{[&](char* buf, size_t count, size_t& read_to) -> ErrorCode {
-        schema_reader.read(buf, count, read_to);
-        if (read_to == 0) {
-            return ErrorCode::EndOfFile;
-        }
-        return ErrorCode::Success;
+        return schema_reader.read(buf, count, read_to);
     }};
     unique_ptr<SchemaAST> schema_ast = sp.generate_schema_ast(reader);
     schema_reader.close();
-- 
2.43.0


From 4480d96a7037c3fbb75fffd7349c343521610ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 24/33] fix: report errors of the file reader once and never as
 success

A line cut off by an I/O error was returned as a complete one, a failed
allocation while reading a line led to an out of bounds access, the end of the
file was reported as an error after an earlier one, and reading a line from an
unopened file was only caught by an assertion.
---
 src/log_surgeon/FileReader.cpp | 19 ++++++++++++++-----
 src/log_surgeon/FileReader.hpp |  3 ++-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/log_surgeon/FileReader.cpp b/src/log_surgeon/FileReader.cpp
index edaa2b3..511ff4b 100644
--- a/src/log_surgeon/FileReader.cpp
+++ b/src/log_surgeon/FileReader.cpp
@@ -2,7 +2,6 @@
 
 #include <unistd.h>
 
-#include <cassert>
 #include <cerrno>
 
 #include <log_surgeon/Constants.hpp>
@@ -25,6 +24,8 @@ auto FileReader::read(char* buf, size_t num_bytes_to_read, size_t& num_bytes_rea
     num_bytes_read = fread(buf, sizeof(*buf), num_bytes_to_read, m_file);
     if (num_bytes_read < num_bytes_to_read) {
         if (0 != ferror(m_file)) {
+            // Don't report the same error again if a later read succeeds
+            clearerr(m_file);
             return ErrorCode::Errno;
         }
         if (0 != feof(m_file)) {
@@ -60,18 +61,26 @@ auto FileReader::close() -> void {
 
 auto FileReader::try_read_to_delimiter(char delim, bool keep_delimiter, bool append, string& str)
         -> ErrorCode {
-    assert(nullptr != m_file);
+    if (nullptr == m_file) {
+        return ErrorCode::NotInit;
+    }
     if (false == append) {
         str.clear();
     }
     ssize_t num_bytes_read = getdelim(&m_get_delim_buf, &m_get_delim_buf_len, delim, m_file);
-    if (num_bytes_read < 1) {
-        if (0 != ferror(m_file)) {
-            return ErrorCode::Errno;
+    if (0 != ferror(m_file)) {
+        // The delimiter was not reached, but the bytes before the error won't be read again
+        clearerr(m_file);
+        if (0 < num_bytes_read) {
+            str.append(m_get_delim_buf, num_bytes_read);
         }
+        return ErrorCode::Errno;
+    }
+    if (num_bytes_read < 1) {
         if (0 != feof(m_file)) {
             return ErrorCode::EndOfFile;
         }
+        return ErrorCode::Errno;
     }
     if (false == keep_delimiter && delim == m_get_delim_buf[num_bytes_read - 1]) {
         --num_bytes_read;
diff --git a/src/log_surgeon/FileReader.hpp b/src/log_surgeon/FileReader.hpp
index 1af906d..d9efcb9 100644
--- a/src/log_surgeon/FileReader.hpp
+++ b/src/log_surgeon/FileReader.hpp
@@ -32,7 +32,8 @@ public:
      * string or not
      * @param append Whether to append to the given string or replace its
      * contents
-     * @param str The string read
+     * @param str The string read (on error, the part read before the error)
+     * @return ErrorCode::NotInit if the file is not open
      * @return ErrorCode::Success on success
      * @return ErrorCode::EndOfFile on EOF
      * @return ErrorCode::Errno otherwise
-- 
2.43.0


From 1f21b2311316e813d84fc7c613798d9bea412a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:15 +0000
Subject: [PATCH 25/33] fix: read more of a schema when symbols fill the buffer

---
 src/log_surgeon/LALR1Parser.hpp |  9 ++++++++-
 src/log_surgeon/LALR1Parser.tpp | 33 ++++++++++++++++++++++-----------
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.hpp b/src/log_surgeon/LALR1Parser.hpp
index 2832128..f383f65 100644
--- a/src/log_surgeon/LALR1Parser.hpp
+++ b/src/log_surgeon/LALR1Parser.hpp
@@ -297,6 +297,7 @@ protected:
     std::stack<ItemSet*> m_parse_stack_states;
     ItemSet* m_root_item_set_ptr{nullptr};
     std::optional<Token> m_next_token;
+    Reader* m_reader{nullptr};
     std::vector<std::unique_ptr<Production>> m_productions;
     std::unordered_map<std::string, std::map<std::vector<std::string>, Production*>>
             m_productions_map;
@@ -370,9 +371,15 @@ private:
      */
     auto generate_lalr1_action() -> void;
 
+    /**
+     * Reads into the input buffer if it is safe to do so
+     * @throw std::runtime_error if the reader fails
+     */
+    auto read_into_input() -> void;
+
     /**
      * Use the previous symbol from the lexer if unused, otherwise request the
-     * next symbol from the lexer
+     * next symbol from the lexer, reading more input if necessary
      * @return Token
      */
     auto get_next_symbol() -> Token;
diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index d2c19c9..6cfa7f3 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -626,17 +626,11 @@ auto LALR1Parser<NFAStateType, DFAStateType>::report_error() -> std::string {
 template <typename NFAStateType, typename DFAStateType>
 auto LALR1Parser<NFAStateType, DFAStateType>::parse(Reader& reader) -> NonTerminal {
     reset();
+    m_reader = &reader;
     m_parse_stack_states.push(m_root_item_set_ptr);
     bool accept = false;
     while (true) {
-        if (ErrorCode const err = m_input_buffer.read_if_safe(reader);
-            ErrorCode::Success != err && ErrorCode::EndOfFile != err)
-        {
-            auto const code{static_cast<std::underlying_type_t<ErrorCode>>(err)};
-            throw std::runtime_error(
-                    "Failed to read the input, error_code=" + std::to_string(code) + "."
-            );
-        }
+        read_into_input();
         Token next_terminal = get_next_symbol();
         if (parse_advance(next_terminal, &accept)) {
             break;
@@ -667,13 +661,30 @@ void LALR1Parser<NFAStateType, DFAStateType>::reset() {
     this->m_lexer.reset();
 }
 
+template <typename NFAStateType, typename DFAStateType>
+void LALR1Parser<NFAStateType, DFAStateType>::read_into_input() {
+    if (ErrorCode const err = m_input_buffer.read_if_safe(*m_reader);
+        ErrorCode::Success != err && ErrorCode::EndOfFile != err)
+    {
+        auto const code{static_cast<std::underlying_type_t<ErrorCode>>(err)};
+        throw std::runtime_error(
+                "Failed to read the input, error_code=" + std::to_string(code) + "."
+        );
+    }
+}
+
 template <typename NFAStateType, typename DFAStateType>
 auto LALR1Parser<NFAStateType, DFAStateType>::get_next_symbol() -> Token {
     if (m_next_token == std::nullopt) {
         Token token;
-        if (ErrorCode error = this->m_lexer.scan(m_input_buffer, token);
-            ErrorCode::Success != error)
-        {
+        ErrorCode error{this->m_lexer.scan(m_input_buffer, token)};
+        while (ErrorCode::BufferOutOfBounds == error) {
+            // The symbols that aren't parsed yet fill the buffer
+            this->m_lexer.increase_buffer_capacity(m_input_buffer);
+            read_into_input();
+            error = this->m_lexer.scan(m_input_buffer, token);
+        }
+        if (ErrorCode::Success != error) {
             throw std::runtime_error("Error scanning in lexer.");
         }
         return token;
-- 
2.43.0


From 461a4bf2528a69c39a386cf310fa38ef8dc5dd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 26/33] fix: report a mistake at the end of a schema line on
 its own line

---
 src/log_surgeon/LALR1Parser.tpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index 6cfa7f3..af887fc 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -580,6 +580,10 @@ auto LALR1Parser<NFAStateType, DFAStateType>::report_error() -> std::string {
     m_parse_stack_matches.pop();
     uint32_t line_num = get_line_num(top_symbol);
     Token token = std::get<Token>(top_symbol);
+    if (line_num > 0 && "\n" == token.to_string()) {
+        // The lexer counts a newline before it returns the newline's token
+        line_num--;
+    }
     std::string consumed_input = get_input_after_last_newline(m_parse_stack_matches);
     std::string error_type{};
     std::string error_indicator;
-- 
2.43.0


From 1986fbebfa2d3a9f265bce27ab7d44e99ce30991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 27/33] fix: remember the path of a schema loaded from a file
 for its errors

---
 src/log_surgeon/SchemaParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 2a55f1c..92cf4b4 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -76,6 +76,7 @@ auto SchemaParser::try_schema_file(string const& schema_file_path) -> unique_ptr
     }};
     unique_ptr<SchemaAST> schema_ast = sp.generate_schema_ast(reader);
     schema_reader.close();
+    schema_ast->m_file_path = schema_file_path;
     return schema_ast;
 }
 
-- 
2.43.0


From 156994763a3dd0d2e57ab5c28d142f42da4dc327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:21 +0000
Subject: [PATCH 28/33] fix: do not cut off the error about a mistake at the
 end of a schema

---
 src/log_surgeon/LALR1Parser.tpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index af887fc..c5525cd 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -615,7 +615,12 @@ auto LALR1Parser<NFAStateType, DFAStateType>::report_error() -> std::string {
             }
         }
         error_type.pop_back();
-        error_type += " before '" + unescape(token.to_string()[0]) + "' token";
+        if (token.m_type_ids_ptr->at(0) == (uint32_t)SymbolId::TokenEnd) {
+            // The token at the end of the input has no characters
+            error_type += " before the end of the input";
+        } else {
+            error_type += " before '" + unescape(token.to_string()[0]) + "' token";
+        }
     }
     std::string error_string = "Schema:" + std::to_string(line_num + 1) + ":"
                                + std::to_string(consumed_input.size() + 1)
-- 
2.43.0


From 13ec5116682c8f05d519044ad58857b931f6ab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:18 +0000
Subject: [PATCH 29/33] fix: a cloned regex AST pointed to tags that the
 original AST owns

---
 src/log_surgeon/finite_automata/RegexAST.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index 91f34fb..4d33ee1 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -658,7 +658,7 @@ public:
               m_group_regex_ast{
                       std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_group_regex_ast->clone())
               },
-              m_tag{std::make_unique<Tag>(*rhs.m_tag)} {
+              m_tag{rhs.m_tag} {
         RegexAST<NFAStateType>::set_subtree_positive_tags(rhs.get_subtree_positive_tags());
     }
 
@@ -708,7 +708,8 @@ public:
 
 private:
     std::unique_ptr<RegexAST<NFAStateType>> m_group_regex_ast;
-    std::unique_ptr<Tag> m_tag;
+    // Shared with clones as other nodes of an AST, and of its clones, point to the tag.
+    std::shared_ptr<Tag const> m_tag;
 };
 
 template <typename NFAStateType>
-- 
2.43.0


From 99d10b3a8662f0154af6aa209eca6c54192854de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:45 +0000
Subject: [PATCH 30/33] fix: do not repeat the end of a regex from an end state
 that other paths share

The loop of (a+)|(b) was added to the state that b also ends in, so baa matched
as well, and (ab+){0,1}c matched bc.
---
 src/log_surgeon/finite_automata/RegexAST.hpp | 49 ++++++++++++++++++--
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index 4d33ee1..7371e08 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -121,6 +121,29 @@ public:
         }
     }
 
+    /**
+     * @return Whether `add_to_nfa` may add transitions that leave its `end_state` in order to repeat
+     * the end of the regex.
+     */
+    [[nodiscard]] virtual auto repeats_from_end_state() const -> bool { return false; }
+
+    /**
+     * Same as `add_to_nfa_with_negative_tags`, except that no transition that leaves `end_state` is
+     * added. Must be used if `end_state` is also reachable without matching this regex.
+     * @param nfa
+     * @param end_state
+     */
+    auto add_to_nfa_with_shared_end_state(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const
+            -> void {
+        if (m_negative_tags.empty() && repeats_from_end_state()) {
+            auto* own_end_state = nfa->new_state();
+            add_to_nfa(nfa, own_end_state);
+            own_end_state->add_epsilon_transition(end_state);
+        } else {
+            add_to_nfa_with_negative_tags(nfa, end_state);
+        }
+    }
+
 protected:
     RegexAST(RegexAST const& rhs) = default;
     auto operator=(RegexAST const& rhs) -> RegexAST& = default;
@@ -537,6 +560,10 @@ public:
      */
     auto add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const -> void override;
 
+    [[nodiscard]] auto repeats_from_end_state() const -> bool override {
+        return m_right->repeats_from_end_state();
+    }
+
     [[nodiscard]] auto serialize() const -> std::u32string override;
 
     [[nodiscard]] auto get_left() const -> RegexAST<NFAStateType> const* { return m_left.get(); }
@@ -601,6 +628,10 @@ public:
      */
     auto add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const -> void override;
 
+    [[nodiscard]] auto repeats_from_end_state() const -> bool override {
+        return is_infinite() || (0 != m_min && m_operand->repeats_from_end_state());
+    }
+
     [[nodiscard]] auto serialize() const -> std::u32string override;
 
     [[nodiscard]] auto is_infinite() const -> bool { return this->m_max == 0; }
@@ -782,8 +813,8 @@ RegexASTOr<NFAStateType>::RegexASTOr(
 template <typename NFAStateType>
 void RegexASTOr<NFAStateType>::add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state)
         const {
-    m_left->add_to_nfa_with_negative_tags(nfa, end_state);
-    m_right->add_to_nfa_with_negative_tags(nfa, end_state);
+    m_left->add_to_nfa_with_shared_end_state(nfa, end_state);
+    m_right->add_to_nfa_with_shared_end_state(nfa, end_state);
 }
 
 template <typename NFAStateType>
@@ -846,6 +877,14 @@ void RegexASTMultiplication<NFAStateType>::add_to_nfa(
         NFAStateType* end_state
 ) const {
     NFAStateType* saved_root = nfa->get_root();
+    // If the operand is optional, the end state is also reachable without matching it
+    auto const add_operand_before_end_state = [&]() -> void {
+        if (0 == m_min) {
+            m_operand->add_to_nfa_with_shared_end_state(nfa, end_state);
+        } else {
+            m_operand->add_to_nfa_with_negative_tags(nfa, end_state);
+        }
+    };
     if (this->m_min == 0) {
         nfa->get_root()->add_epsilon_transition(end_state);
     } else {
@@ -858,7 +897,7 @@ void RegexASTMultiplication<NFAStateType>::add_to_nfa(
     }
     if (this->is_infinite()) {
         nfa->set_root(end_state);
-        m_operand->add_to_nfa_with_negative_tags(nfa, end_state);
+        add_operand_before_end_state();
     } else if (this->m_max > this->m_min) {
         if (this->m_min != 0) {
             NFAStateType* intermediate_state = nfa->new_state();
@@ -866,12 +905,12 @@ void RegexASTMultiplication<NFAStateType>::add_to_nfa(
             nfa->set_root(intermediate_state);
         }
         for (uint32_t i = this->m_min + 1; i < this->m_max; ++i) {
-            m_operand->add_to_nfa_with_negative_tags(nfa, end_state);
+            add_operand_before_end_state();
             NFAStateType* intermediate_state = nfa->new_state();
             m_operand->add_to_nfa_with_negative_tags(nfa, intermediate_state);
             nfa->set_root(intermediate_state);
         }
-        m_operand->add_to_nfa_with_negative_tags(nfa, end_state);
+        add_operand_before_end_state();
     }
     nfa->set_root(saved_root);
 }
-- 
2.43.0


From dfd89c6829034e50cb059477615a9716481f6b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:45 +0000
Subject: [PATCH 31/33] fix: reject reversed ranges in bracket expressions,
 accept ranges of one character

Both failed an assertion.
---
 src/log_surgeon/SchemaParser.cpp             | 8 ++++++++
 src/log_surgeon/finite_automata/RegexAST.hpp | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 92cf4b4..c547a04 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -302,6 +302,14 @@ static auto regex_range_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     auto& r2 = m->non_terminal_cast(2)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
     auto* r1_ptr = dynamic_cast<RegexASTLiteralByte*>(r1.get());
     auto* r2_ptr = dynamic_cast<RegexASTLiteralByte*>(r2.get());
+    if (nullptr != r1_ptr && nullptr != r2_ptr
+        && r1_ptr->get_character() > r2_ptr->get_character())
+    {
+        throw std::runtime_error(
+                "Line " + std::to_string(m->token_cast(1)->m_line + 1)
+                + ": error: the characters of a range in a bracket expression are in reverse order."
+        );
+    }
     return unique_ptr<ParserAST>(
             new ParserValueRegex(unique_ptr<RegexASTByte>(new RegexASTGroupByte(r1_ptr, r2_ptr)))
     );
diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index 7371e08..150c39d 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -1041,7 +1041,7 @@ RegexASTGroup<NFAStateType>::RegexASTGroup(
         );
     }
     m_negate = false;
-    assert(right->get_character() > left->get_character());
+    assert(right->get_character() >= left->get_character());
     m_ranges.emplace_back(left->get_character(), right->get_character());
 }
 
-- 
2.43.0


From 6a3059063e53bd8178fb5cd95c27012387271890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:46 +0000
Subject: [PATCH 32/33] fix: accept \s in bracket expressions

It was rejected as an illegal character, although the grammar has a rule for it.
---
 src/log_surgeon/SchemaParser.cpp             |  4 ++--
 src/log_surgeon/finite_automata/RegexAST.hpp | 10 ++++------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index c547a04..57ecb1e 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -559,12 +559,12 @@ void SchemaParser::add_productions() {
     add_production(
             "IncompleteGroup",
             {"IncompleteGroup", "WhiteSpace"},
-            regex_add_literal_existing_group_rule
+            regex_add_range_existing_group_rule
     );
     add_production("IncompleteGroup", {"Lbracket", "LiteralRange"}, regex_add_range_new_group_rule);
     add_production("IncompleteGroup", {"Lbracket", "Digit"}, regex_add_range_new_group_rule);
     add_production("IncompleteGroup", {"Lbracket", "Literal"}, regex_add_literal_new_group_rule);
-    add_production("IncompleteGroup", {"Lbracket", "WhiteSpace"}, regex_add_literal_new_group_rule);
+    add_production("IncompleteGroup", {"Lbracket", "WhiteSpace"}, regex_add_range_new_group_rule);
     add_production("IncompleteGroup", {"Lbracket", "Hat"}, regex_complement_incomplete_group_rule);
     add_production("LiteralRange", {"Literal", "Dash", "Literal"}, regex_range_rule);
     add_production("Literal", {"Backslash", "t"}, regex_tab_rule);
diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index 150c39d..a496db2 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -1007,8 +1007,7 @@ template <typename NFAStateType>
 RegexASTGroup<NFAStateType>::RegexASTGroup(RegexASTGroup const* left, RegexASTGroup const* right)
         : m_negate(left->m_negate),
           m_ranges(left->m_ranges) {
-    assert(right->m_ranges.size() == 1);  // Only add LiteralRange
-    m_ranges.push_back(right->m_ranges[0]);
+    m_ranges.insert(m_ranges.end(), right->m_ranges.cbegin(), right->m_ranges.cend());
 }
 
 template <typename NFAStateType>
@@ -1023,10 +1022,9 @@ RegexASTGroup<NFAStateType>::RegexASTGroup(RegexASTLiteral<NFAStateType> const*
 }
 
 template <typename NFAStateType>
-RegexASTGroup<NFAStateType>::RegexASTGroup(RegexASTGroup const* right) : m_negate(false) {
-    assert(right->m_ranges.size() == 1);  // Only add LiteralRange
-    m_ranges.push_back(right->m_ranges[0]);
-}
+RegexASTGroup<NFAStateType>::RegexASTGroup(RegexASTGroup const* right)
+        : m_negate(false),
+          m_ranges(right->m_ranges) {}
 
 template <typename NFAStateType>
 RegexASTGroup<NFAStateType>::RegexASTGroup(
-- 
2.43.0


From f2265afa2a53597df92d89f29ebd2ba4d8912dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:24 +0000
Subject: [PATCH 33/33] fix: take repetitions of at most zero times literally,
 reject reversed bounds

a{0} and a{0,0} matched any number of times, as zero stands for no maximum, and
a{3,2} matched three times.
---
 src/log_surgeon/SchemaParser.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 57ecb1e..39c85b2 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -221,6 +221,9 @@ static auto regex_match_exactly_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     for (uint32_t i = 0; i < r3_size; i++) {
         reps += r3_ptr->get_digit(i) * (uint32_t)pow(10, r3_size - i - 1);
     }
+    if (0 == reps) {
+        return make_unique<ParserValueRegex>(make_unique<RegexASTEmptyByte>());
+    }
     auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
     return unique_ptr<ParserAST>(new ParserValueRegex(
             unique_ptr<RegexASTByte>(new RegexASTMultiplicationByte(std::move(r1), reps, reps))
@@ -242,6 +245,15 @@ static auto regex_match_range_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     for (uint32_t i = 0; i < r5_size; i++) {
         max += r5_ptr->get_digit(i) * (uint32_t)pow(10, r5_size - i - 1);
     }
+    if (max < min) {
+        throw std::runtime_error(
+                "Line " + std::to_string(m->token_cast(1)->m_line + 1)
+                + ": error: the maximum number of repetitions is less than the minimum."
+        );
+    }
+    if (0 == max) {
+        return make_unique<ParserValueRegex>(make_unique<RegexASTEmptyByte>());
+    }
     auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
 
     if (0 == min) {
-- 
2.43.0

