From 868ae32c08def0147b754d7c9afa5877b07e7717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:31 +0000
Subject: [PATCH 01/61] fix: to_compact_dfa mixed accepting and non-accepting
 states into one set

The set reserved for the non-accepting states was also used for the first
accepting state, and stateForActions was never filled in, so (for example)
the compacted DFA for ac|bc? stopped accepting 'b'.
---
 TameParse/Dfa/ndfa_transformations.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/TameParse/Dfa/ndfa_transformations.cpp b/TameParse/Dfa/ndfa_transformations.cpp
index a229064..8cba60c 100644
--- a/TameParse/Dfa/ndfa_transformations.cpp
+++ b/TameParse/Dfa/ndfa_transformations.cpp
@@ -270,10 +270,8 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
         thisState.insert(*initial);
     }
     
-    // Bundle all of the non-accepting states up into a single state
-    // (If all of the remaining states are accepting then we'll end up with a free bonus state here :-/)
-    int nonAcceptingStates = (int) newStates.size();
-    newStates.push_back(state_set());
+    // Bundle all of the non-accepting states up into a single state (created once we know that there is such a state)
+    int nonAcceptingStates = -1;
     
     // Also remember which new state contains which set of accepting actions
     map<action_set, int> stateForActions;
@@ -288,6 +286,11 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
 
         // If this state is not an accepting state then add it to the non-accepting set
         if (acceptActions == m_Accept->end() || acceptActions->second.empty()) {
+            if (nonAcceptingStates == -1) {
+                nonAcceptingStates = (int) newStates.size();
+                newStates.push_back(state_set());
+            }
+
             newStates[nonAcceptingStates].insert(stateId);
             oldToNew[stateId] = nonAcceptingStates;
         }
@@ -323,8 +326,9 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
             
             if (existingState == stateForActions.end()) {
                 // Create a new state
-                targetState = (int) newStates.size()-1;
+                targetState = (int) newStates.size();
                 newStates.push_back(state_set());
+                stateForActions[actions] = targetState;
             } else {
                 // Add to the existing state
                 targetState = existingState->second;
@@ -395,7 +399,7 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
                 if (splitStateId == -1) {
                     // Assign a new state
                     changed         = true;
-                    splitStateId    = (int) newStates.size()-1;
+                    splitStateId    = (int) newStates.size();
                     newStates.push_back(state_set());
                 }
                 
-- 
2.43.0


From de6b61afee7e916fb1a86870d8a63c46e59d4a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:31 +0000
Subject: [PATCH 02/61] fix: deduplicating symbol sets ran past the end of the
 range being added

When a gap was filled in before a later range, the filled range could extend
past the end of the range being added; deduplicate then looped forever (for
example with the regex aa([^b] [^0]a)).
---
 TameParse/Dfa/remapped_symbol_map.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TameParse/Dfa/remapped_symbol_map.cpp b/TameParse/Dfa/remapped_symbol_map.cpp
index 7b97f3b..9f746f2 100644
--- a/TameParse/Dfa/remapped_symbol_map.cpp
+++ b/TameParse/Dfa/remapped_symbol_map.cpp
@@ -130,6 +130,7 @@ static void add_set(sets_for_range& sets, const symbol_set& symbols, int identif
             // If there's a gap between the remaining set and the current position, then fill it in
             if (firstGreaterThan->first.lower() > remaining.lower()) {
                 int newUpper = firstGreaterThan->first.lower();
+                if (newUpper > remaining.upper()) newUpper = remaining.upper();
                 
                 // Insert a value to fill the gap
                 firstGreaterThan = sets.insert(firstGreaterThan, sets_for_range::value_type(symbol_range(remaining.lower(), newUpper), justUs));
-- 
2.43.0


From c9fb7006e124bc76e390efe3a671ce2eab4a2da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:31 +0000
Subject: [PATCH 03/61] fix: ranges that cross a high surrogate used the wrong
 low surrogates

The first and last high surrogates of a range were followed by the (empty or
wrong) ranges x-dc00 and d800-y rather than x-e000 and dc00-y.
---
 TameParse/Dfa/ndfa.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TameParse/Dfa/ndfa.cpp b/TameParse/Dfa/ndfa.cpp
index 851c1f7..bad521b 100644
--- a/TameParse/Dfa/ndfa.cpp
+++ b/TameParse/Dfa/ndfa.cpp
@@ -241,14 +241,14 @@ static void add_surrogate_transition(const range<int>& surrogateRange, int curre
         nfa->add_transition(currentState, range<int>(surrogateLower.first, surrogateLower.first+1), tmpState1);
 
         // Transit to the final state for all the 'lower' symbols
-        nfa->add_transition(tmpState1, range<int>(surrogateLower.second, 0xdc00), targetState);
+        nfa->add_transition(tmpState1, range<int>(surrogateLower.second, 0xe000), targetState);
 
         // ... do the same for the 'upper' set of symbols
         int tmpState2 = nfa->add_state();
         nfa->add_transition(currentState, range<int>(surrogateHigher.first, surrogateHigher.first+1), tmpState2);
 
         // Transit to the final state for all the 'lower' symbols
-        nfa->add_transition(tmpState2, range<int>(0xd800, surrogateHigher.second+1), targetState);
+        nfa->add_transition(tmpState2, range<int>(0xdc00, surrogateHigher.second+1), targetState);
 
         // If there's a middle range, then add transitions for that as well
         if (surrogateHigher.first-1 > surrogateLower.first) {
-- 
2.43.0


From bb1b1796023e7e3eb52b44a9f8a869d81c064aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:31 +0000
Subject: [PATCH 04/61] fix: regex operators shared states with neighbouring
 items

*, + and ? add transitions between the first and last states of an item. As
these states were shared with the items around it, a*b* accepted 'ba',
(a*|b) accepted 'ab' and a(aaa*)* accepted 'aa'. Top level alternatives were
also added to state 0 rather than the first state of the regex.
---
 TameParse/Dfa/ndfa_regex.cpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/TameParse/Dfa/ndfa_regex.cpp b/TameParse/Dfa/ndfa_regex.cpp
index 7291232..c033013 100644
--- a/TameParse/Dfa/ndfa_regex.cpp
+++ b/TameParse/Dfa/ndfa_regex.cpp
@@ -177,6 +177,9 @@ int ndfa_regex::add_regex(int initialState, const symbol_string& regex) {
 int ndfa_regex::add_regex(builder& cons, const symbol_string& regex) {
     // Create an epsilon transform to an initial state for this regex
     cons >> epsilon();
+
+    // Top-level alternatives start from this state
+    cons.push();
     
     // Compile until we reach the end of the regex
     symbol_string::const_iterator pos = regex.begin();
@@ -194,6 +197,7 @@ int ndfa_regex::add_regex(builder& cons, const symbol_string& regex) {
     
     // Compile the end of the expression
     compile(end, end, cons);
+    cons.pop();
     
     // Return the final state
     return ((state)cons).identifier();
@@ -231,6 +235,17 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
         return;
     }
     
+    // Every item starts in a state of its own: the '*', '+' and '?' operators add transitions to the state an item starts
+    // in, and these must not be shared with whatever came before the item
+    switch (*pos) {
+        case ')': case '|': case '*': case '+': case '?':
+            break;
+
+        default:
+            cons >> epsilon();
+            break;
+    }
+
     // Default regex compiler
     switch (*pos) {
         case '(':           // Group start
@@ -262,8 +277,12 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
             cons.goto_state(current);
             cons >> previous >> epsilon();
             
-            // Final state is the current state (and preserve the 'previous' state)
-            cons.goto_state(current, previous);
+            // Final state is a new state (as the current state can now return to the start of this subexpression)
+            cons.goto_state(current);
+            cons >> epsilon();
+            
+            // Preserve the 'previous' state
+            cons.goto_state(cons.current_state(), previous);
             break;
         }
 
@@ -277,8 +296,12 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
             cons.goto_state(current);
             cons >> previous >> epsilon();
             
-            // Final state is the current state (and preserve the 'previous' state)
-            cons.goto_state(current, previous);
+            // Final state is a new state (as the current state can now return to the start of this subexpression)
+            cons.goto_state(current);
+            cons >> epsilon();
+            
+            // Preserve the 'previous' state
+            cons.goto_state(cons.current_state(), previous);
             break;
         }
             
-- 
2.43.0


From eb5596062414bb2c058ee67c43279909f6853c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:17 +0000
Subject: [PATCH 05/61] fix: symbol tables lost ranges that share a block
 boundary, and hard-coded lookups ignored the low byte

---
 TameParse/Dfa/hard_coded_symbol_table.h |  4 +-
 TameParse/Dfa/symbol_table.h            | 56 +++++++++++++++++++++----
 2 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/TameParse/Dfa/hard_coded_symbol_table.h b/TameParse/Dfa/hard_coded_symbol_table.h
index bc9e724..f34d6ea 100644
--- a/TameParse/Dfa/hard_coded_symbol_table.h
+++ b/TameParse/Dfa/hard_coded_symbol_table.h
@@ -70,10 +70,10 @@ namespace dfa {
         int highest = lowHigh>>8;
         
         // Return the default value if the symbol is out of range
-        if ((int) symbol < lowest || (int) symbol >= highest) return table[offset + 0];
+        int pos         = ((unsigned int) symbol&0xff);
+        if (pos < lowest || pos >= highest) return table[offset + 0];
         
         // Look up the symbol set
-        int pos         = ((unsigned int) symbol&0xff);
         int symbolSet   = table[offset + 2 + (pos - lowest)];
         
         // Use the default symbol if the offset is -1
diff --git a/TameParse/Dfa/symbol_table.h b/TameParse/Dfa/symbol_table.h
index ee84c40..991654e 100644
--- a/TameParse/Dfa/symbol_table.h
+++ b/TameParse/Dfa/symbol_table.h
@@ -82,19 +82,26 @@ namespace dfa {
         
         /// \brief Destructor
         ~symbol_level() {
-            if (Symbols) {
-                for (int x=0; x<c_MaxIndex; ++x) {
-                    if (Symbols[x]) delete Symbols[x];
-                }
-                delete[] Symbols;
-            }
+            clear();
         }
         
         /// \brief Creates the table at the specified index
         inline void create(int index) {
             if (Symbols[index]) return;
             
-            Symbols[index]      = new next_level();
+            Symbols[index]                  = new next_level();
+            Symbols[index]->DefaultSymbol   = DefaultSymbol;
+        }
+        
+        /// \brief Removes all of the symbols defined at this level
+        inline void clear() {
+            if (!Symbols) return;
+            
+            for (int x=0; x<c_MaxIndex; ++x) {
+                if (Symbols[x]) delete Symbols[x];
+            }
+            delete[] Symbols;
+            Symbols = NULL;
         }
         
         /// \brief Sets all the symbols in the specified range to the specified symbol. The range must overlap this item.
@@ -108,15 +115,20 @@ namespace dfa {
             // Work out the final index in this table
             int endIndex = range.upper() - base;
             if (endIndex < 0) endIndex = 0;
+            int endOffset = (endIndex)&((1<<shift)-1);
             endIndex >>= shift;
             
             // If the range entirely covers this item, then set the default symbol and stop
             if (startOffset == 0 && startIndex == 0 && endIndex >= c_MaxIndex) {
+                clear();
                 DefaultSymbol = symbol;
                 return;
             }
             
+            // The upper bound is exclusive, so a range that ends on a boundary does not reach into the next item
+            if (endOffset == 0) --endIndex;
             if (endIndex > c_MaxIndex-1) endIndex = c_MaxIndex-1;
+            if (endIndex < startIndex) return;
             
             // Create the symbol set if needed
             if (!Symbols) {
@@ -129,7 +141,7 @@ namespace dfa {
             // Otherwise, create new entries (if needed) and add the range there as well
             for (int index = startIndex; index <= endIndex; ++index) {
                 // Create a new entry if needed
-                if (!Symbols[index]) Symbols[index] = new next_level();
+                create(index);
                 
                 // Add the range there (with an updated base value)
                 Symbols[index]->add_range(base + (index << shift), range, symbol);
@@ -262,6 +274,22 @@ namespace dfa {
             Symbols         = NULL;
         }
         
+        /// \brief Creates a copy of an existing symbol level
+        symbol_level(const symbol_level& copyFrom) {
+            DefaultSymbol   = copyFrom.DefaultSymbol;
+            Symbols         = NULL;
+            
+            if (copyFrom.Symbols) {
+                Symbols = new int[c_MaxIndex];
+                for (int x=0; x<c_MaxIndex; ++x) Symbols[x] = copyFrom.Symbols[x];
+            }
+        }
+        
+        /// \brief Destructor
+        ~symbol_level() {
+            delete[] Symbols;
+        }
+        
         /// \brief Sets all the symbols in the specified range to the specified symbol. The range must overlap this item.
         void add_range(int base, const range<int>& range, int symbol) {
             // Work out the initial index in this table
@@ -277,16 +305,19 @@ namespace dfa {
             
             // If the range entirely covers this item, then set the default symbol and stop
             if (startOffset == 0 && startIndex == 0 && endIndex >= c_MaxIndex) {
+                delete[] Symbols;
+                Symbols       = NULL;
                 DefaultSymbol = symbol;
                 return;
             }
             
             if (endIndex > c_MaxIndex) endIndex = c_MaxIndex;
+            if (endIndex <= startIndex) return;
             
             // Create the symbol array if needed
             if (!Symbols) {
                 Symbols = new int[c_MaxIndex];
-                for (int index=0; index< c_MaxIndex; ++index) Symbols[index] = symbol_set::null;
+                for (int index=0; index< c_MaxIndex; ++index) Symbols[index] = DefaultSymbol;
             }
             
             // Fill in the symbols between these indexes
@@ -337,6 +368,9 @@ namespace dfa {
                 if (symbolId >= highestUsed)  highestUsed = symbolId+1;
             }
 
+            // Every symbol might be the default symbol
+            if (highestUsed < lowestUsed) lowestUsed = highestUsed;
+
             // Allocate space for this table
             size = 2 + (highestUsed - lowestUsed);
             int*    newTable    = new int[size];
@@ -357,6 +391,10 @@ namespace dfa {
             // Return the new table
             return newTable;
         }
+        
+    private:
+        /// \brief Disabled assignment
+        symbol_level<int, mask, shift>& operator=(const symbol_level<int, mask, shift>& assignFrom);
     };
     
     ///
-- 
2.43.0


From 69e5840ea1b82430f63ac1dfdd1e35ed37c79e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:47 +0000
Subject: [PATCH 06/61] fix: UTF-8 reader looked at the previous character to
 find the length of the next

---
 TameParse/Util/utf8reader.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/TameParse/Util/utf8reader.cpp b/TameParse/Util/utf8reader.cpp
index 92c8fa7..cf59e50 100644
--- a/TameParse/Util/utf8reader.cpp
+++ b/TameParse/Util/utf8reader.cpp
@@ -95,7 +95,7 @@ utf8reader& utf8reader::get(wchar_t& target) {
     }
 
     // Work out how many bytes are in the complete character
-    else if ((target & 0xe0) == 0xc0) {
+    else if ((firstChar & 0xe0) == 0xc0) {
         // Begins 110xxxx (0x80 - 0x7ff)
 
         // Read the remaining characters
@@ -111,7 +111,7 @@ utf8reader& utf8reader::get(wchar_t& target) {
         // Create the result
         target = ((firstChar&0x1f)<<6) | (secondChar&0x3f);
         return *this;
-    } else if ((target & 0xf0) == 0xe0) {
+    } else if ((firstChar & 0xf0) == 0xe0) {
         // Begins 1110xxxx (0x800 - 0xffff)
 
         // Read the remaining characters
@@ -128,7 +128,7 @@ utf8reader& utf8reader::get(wchar_t& target) {
         // Create the result
         target = ((firstChar&0xf)<<12) | ((secondChar&0x3f)<<6) | (thirdChar&0x3f);
         return *this;
-    } else if ((target & 0xf8) == 0xf0) {
+    } else if ((firstChar & 0xf8) == 0xf0) {
         // Begins 11110000 (0x10000 - 0x1fffff)
 
         // Read the remaining characters
@@ -144,10 +144,10 @@ utf8reader& utf8reader::get(wchar_t& target) {
         }
 
         // Construct the UCS-4 character
-        unsigned int ucs4 = ((firstChar&0x7)<<18) | ((secondChar&0x3f)<<12) | ((thirdChar&0x3f)<<6) | (secondChar&0x3f);
+        unsigned int ucs4 = ((firstChar&0x7)<<18) | ((secondChar&0x3f)<<12) | ((thirdChar&0x3f)<<6) | (fourthChar&0x3f);
 
-        // Must be less than 0x110000 to be a valid surrogate pair
-        if (ucs4 >= 0x110000) {
+        // Must be at least 0x10000 and less than 0x110000 to be a valid surrogate pair
+        if (ucs4 < 0x10000 || ucs4 >= 0x110000) {
             m_BadUTF8   = true;
             target      = 0;
             return *this;
@@ -172,5 +172,5 @@ utf8reader& utf8reader::get(wchar_t& target) {
 
 /// \brief True if the stream is good
 bool utf8reader::good() const {
-    return !m_BadUTF8 && m_InputStream->good();
+    return !m_BadUTF8 && m_InputStream && m_InputStream->good();
 }
-- 
2.43.0


From a4455c119f94cdc9540f732adfa66eda621b25e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:47 +0000
Subject: [PATCH 07/61] fix: case conversion of ranges that start inside a
 mapped block ran past its end

---
 TameParse/Util/unicode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TameParse/Util/unicode.cpp b/TameParse/Util/unicode.cpp
index c834673..de4c001 100644
--- a/TameParse/Util/unicode.cpp
+++ b/TameParse/Util/unicode.cpp
@@ -92,7 +92,7 @@ static symbol_set convert_range(const symbol_range& range, const map_entry* map,
             int initialChar = curItem->map_to + (lowerChar - curItem->lower);
 
             // The number of characters to map
-            int numChars = curItem->upper - curItem->lower;
+            int numChars = curItem->upper - lowerChar;
             if (numChars > upperChar - lowerChar) {
                 numChars = upperChar - lowerChar;
             }
-- 
2.43.0


From 64dc585f96a5f116f817f0d3ebc8866fcf2ce9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:47 +0000
Subject: [PATCH 08/61] fix: newline characters other than LF did not advance
 the stream offset

---
 TameParse/Dfa/position.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TameParse/Dfa/position.h b/TameParse/Dfa/position.h
index 4c3c80b..d20fa28 100644
--- a/TameParse/Dfa/position.h
+++ b/TameParse/Dfa/position.h
@@ -174,6 +174,7 @@ namespace dfa {
                     break;
                     
                 case 0x0d:              // CR: Carriage Return
+                    m_CurrentPosition.increment_offset();
                     m_CurrentPosition.newline();
                     m_SeenReturn = true;
                     break;
@@ -183,6 +184,7 @@ namespace dfa {
                 case 0x85:              // NEL: NExt Line
                 case 0x2028:            // LS: Line Separator
                 case 0x2029:            // PS: Paragraph Separator
+                    m_CurrentPosition.increment_offset();
                     m_CurrentPosition.newline();
                     m_SeenReturn = false;
                     break;
-- 
2.43.0


From c4dfdf465d3ba6d9bbdc5ad3e4b4dd32f58bf9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:47 +0000
Subject: [PATCH 09/61] fix: bytes above 0x7f read from a char stream were sign
 extended

---
 TameParse/Dfa/basic_lexer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TameParse/Dfa/basic_lexer.h b/TameParse/Dfa/basic_lexer.h
index 99abafa..afb5f3b 100644
--- a/TameParse/Dfa/basic_lexer.h
+++ b/TameParse/Dfa/basic_lexer.h
@@ -95,6 +95,9 @@ namespace dfa {
                 m_Stream.get(next);
                 if (!m_Stream.good()) {
                     result = symbol_set::end_of_input;
+                } else if (sizeof(Char) == 1) {
+                    // Don't sign-extend bytes: this would make them look like special symbols such as end_of_input
+                    result = (int)(unsigned char)next;
                 } else {
                     result = (int)(unsigned)next;
                 }
-- 
2.43.0


From e2cbd457205d1061b8281970602d5c3cbfe36289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:23 +0000
Subject: [PATCH 10/61] fix: generated lexer tables left out the end of the
 last state and states with no transitions

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index 435087b..46631ac 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -519,15 +519,17 @@ void output_cplusplus::source_lexer_state_machine() {
     // Finish off the table
     *m_SourceFile << "\n    };\n";
 
-    // Add a final state to point to the end of the array
-    stateToEntryOffset.push_back(entryPos);
+    // Any remaining states have no transitions, and the final entry points to the end of the array
+    while (count_lexer_states() >= (int)stateToEntryOffset.size()) {
+        stateToEntryOffset.push_back(entryPos);
+    }
 
     // Write out the rows table
-    *m_SourceFile << "\nstatic const dfa::state_machine_compact_table<false>::entry* s_LexerStates[" << stateToEntryOffset.size()-1 << "] = {\n        ";
+    *m_SourceFile << "\nstatic const dfa::state_machine_compact_table<false>::entry* s_LexerStates[" << stateToEntryOffset.size() << "] = {\n        ";
 
     // Write the actual rows
     bool first = true;
-    for (vector<int>::iterator offset = stateToEntryOffset.begin(); offset != stateToEntryOffset.end()-1; ++offset) {
+    for (vector<int>::iterator offset = stateToEntryOffset.begin(); offset != stateToEntryOffset.end(); ++offset) {
         // Commas between entries
         if (!first) *m_SourceFile << ", ";
 
-- 
2.43.0


From 6c38087e90aee3836e0284bcd12bfdcb6162a0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:37 +0000
Subject: [PATCH 11/61] fix: merging or excluding a symbol set with itself
 iterated over the set being changed

---
 TameParse/Dfa/symbol_set.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/TameParse/Dfa/symbol_set.cpp b/TameParse/Dfa/symbol_set.cpp
index d228a9e..ffb72e7 100644
--- a/TameParse/Dfa/symbol_set.cpp
+++ b/TameParse/Dfa/symbol_set.cpp
@@ -55,6 +55,9 @@ symbol_set::~symbol_set() {
 
 /// \brief Merges this symbol set with another
 symbol_set& symbol_set::operator|=(const symbol_set& mergeWith) {
+    // Merging a set with itself changes nothing (and can't be done while iterating over it)
+    if (&mergeWith == this) return *this;
+    
     // Merge each of the ranges in turn
     // TODO: this will perform a search for each range, we can take advantage of the ordering to improve performance here
     for (symbol_store::const_iterator symRange = mergeWith.m_Symbols.begin(); symRange != mergeWith.m_Symbols.end(); ++symRange) {
@@ -110,6 +113,12 @@ symbol_set& symbol_set::operator|=(const symbol_range& mergeWith) {
 
 /// \brief Excludes a range of symbols from this set
 void symbol_set::exclude(const symbol_set& toExclude) {
+    // Excluding a set from itself leaves nothing (and can't be done while iterating over it)
+    if (&toExclude == this) {
+        m_Symbols.clear();
+        return;
+    }
+    
     // Exclude each of the ranges in turn
     // TODO: this will perform a search for each range, we can take advantage of the ordering to improve performance here
     for (symbol_store::const_iterator excluded = toExclude.m_Symbols.begin(); excluded != toExclude.m_Symbols.end(); ++excluded) {
-- 
2.43.0


From f3e1af9225054cc8ad7ad566d3ce452bd6795794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:52 +0000
Subject: [PATCH 12/61] fix: unicode categories left out the characters inside
 the CJK, Hangul, surrogate and private blocks

---
 TameParse/Unicode/unicode.pl     | 4 ++--
 TameParse/Unicode/unicode_data.h | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/TameParse/Unicode/unicode.pl b/TameParse/Unicode/unicode.pl
index 19c87fc..af8b20a 100755
--- a/TameParse/Unicode/unicode.pl
+++ b/TameParse/Unicode/unicode.pl
@@ -29,8 +29,8 @@ while ($_ = <>) {
 		$lastRange = $rangeArray->[-1];
 
 		# Compare to the character
-		if ($lastRange->[1] == $charNum - 1) {
-			# Just update the range
+		if ($lastRange->[1] == $charNum - 1 || $fields[1] =~ /, Last>$/) {
+			# Just update the range (the 'Last' entry of a block follows its 'First' entry, and includes everything between)
 			$lastRange->[1] = $charNum;
 		} else {
 			# Start a new range
diff --git a/TameParse/Unicode/unicode_data.h b/TameParse/Unicode/unicode_data.h
index 89810a9..2f9113d 100644
--- a/TameParse/Unicode/unicode_data.h
+++ b/TameParse/Unicode/unicode_data.h
@@ -1,6 +1,6 @@
 /* Unicode character type table generated by unicode.pl */
 
-static unicode::range s_RangeCo[] = { { 57344, 57345 }, { 63743, 63744 }, { 983040, 983041 }, { 1048573, 1048574 }, { 1048576, 1048577 }, { 1114109, 1114110 }, { -1, -1 } };
+static unicode::range s_RangeCo[] = { { 57344, 63744 }, { 983040, 1048574 }, { 1048576, 1114110 }, { -1, -1 } };
 static unicode::range s_RangeLm[] = { { 688, 706 }, { 710, 722 }, { 736, 741 }, { 748, 749 }, { 750, 751 }, { 884, 885 }, { 890, 891 }, { 1369, 1370 }, { 1600, 1601 }, { 1765, 1767 }, { 2036, 2038 }, { 2042, 2043 }, { 2074, 2075 }, { 2084, 2085 }, { 2088, 2089 }, { 2417, 2418 }, { 3654, 3655 }, { 3782, 3783 }, { 4348, 4349 }, { 6103, 6104 }, { 6211, 6212 }, { 6823, 6824 }, { 7288, 7294 }, { 7468, 7522 }, { 7544, 7545 }, { 7579, 7616 }, { 8305, 8306 }, { 8319, 8320 }, { 8336, 8349 }, { 11389, 11390 }, { 11631, 11632 }, { 11823, 11824 }, { 12293, 12294 }, { 12337, 12342 }, { 12347, 12348 }, { 12445, 12447 }, { 12540, 12543 }, { 40981, 40982 }, { 42232, 42238 }, { 42508, 42509 }, { 42623, 42624 }, { 42775, 42784 }, { 42864, 42865 }, { 42888, 42889 }, { 43471, 43472 }, { 43632, 43633 }, { 43741, 43742 }, { 65392, 65393 }, { 65438, 65440 }, { -1, -1 } };
 static unicode::range s_RangePd[] = { { 45, 46 }, { 1418, 1419 }, { 1470, 1471 }, { 5120, 5121 }, { 6150, 6151 }, { 8208, 8214 }, { 11799, 11800 }, { 11802, 11803 }, { 12316, 12317 }, { 12336, 12337 }, { 12448, 12449 }, { 65073, 65075 }, { 65112, 65113 }, { 65123, 65124 }, { 65293, 65294 }, { -1, -1 } };
 static unicode::range s_RangeSo[] = { { 166, 168 }, { 169, 170 }, { 174, 175 }, { 176, 177 }, { 182, 183 }, { 1154, 1155 }, { 1550, 1552 }, { 1758, 1759 }, { 1769, 1770 }, { 1789, 1791 }, { 2038, 2039 }, { 2554, 2555 }, { 2928, 2929 }, { 3059, 3065 }, { 3066, 3067 }, { 3199, 3200 }, { 3449, 3450 }, { 3841, 3844 }, { 3859, 3864 }, { 3866, 3872 }, { 3892, 3893 }, { 3894, 3895 }, { 3896, 3897 }, { 4030, 4038 }, { 4039, 4045 }, { 4046, 4048 }, { 4053, 4057 }, { 4254, 4256 }, { 4960, 4961 }, { 5008, 5018 }, { 6464, 6465 }, { 6622, 6656 }, { 7009, 7019 }, { 7028, 7037 }, { 8448, 8450 }, { 8451, 8455 }, { 8456, 8458 }, { 8468, 8469 }, { 8470, 8472 }, { 8478, 8484 }, { 8485, 8486 }, { 8487, 8488 }, { 8489, 8490 }, { 8494, 8495 }, { 8506, 8508 }, { 8522, 8523 }, { 8524, 8526 }, { 8527, 8528 }, { 8597, 8602 }, { 8604, 8608 }, { 8609, 8611 }, { 8612, 8614 }, { 8615, 8622 }, { 8623, 8654 }, { 8656, 8658 }, { 8659, 8660 }, { 8661, 8692 }, { 8960, 8968 }, { 8972, 8992 }, { 8994, 9001 }, { 9003, 9084 }, { 9085, 9115 }, { 9140, 9180 }, { 9186, 9204 }, { 9216, 9255 }, { 9280, 9291 }, { 9372, 9450 }, { 9472, 9655 }, { 9656, 9665 }, { 9666, 9720 }, { 9728, 9839 }, { 9840, 9984 }, { 9985, 10088 }, { 10132, 10176 }, { 10240, 10496 }, { 11008, 11056 }, { 11077, 11079 }, { 11088, 11098 }, { 11493, 11499 }, { 11904, 11930 }, { 11931, 12020 }, { 12032, 12246 }, { 12272, 12284 }, { 12292, 12293 }, { 12306, 12308 }, { 12320, 12321 }, { 12342, 12344 }, { 12350, 12352 }, { 12688, 12690 }, { 12694, 12704 }, { 12736, 12772 }, { 12800, 12831 }, { 12842, 12881 }, { 12896, 12928 }, { 12938, 12977 }, { 12992, 13055 }, { 13056, 13312 }, { 19904, 19968 }, { 42128, 42183 }, { 43048, 43052 }, { 43062, 43064 }, { 43065, 43066 }, { 43639, 43642 }, { 65021, 65022 }, { 65508, 65509 }, { 65512, 65513 }, { 65517, 65519 }, { 65532, 65534 }, { 65794, 65795 }, { 65847, 65856 }, { 65913, 65930 }, { 65936, 65948 }, { 66000, 66045 }, { 118784, 119030 }, { 119040, 119079 }, { 119081, 119141 }, { 119146, 119149 }, { 119171, 119173 }, { 119180, 119210 }, { 119214, 119262 }, { 119296, 119362 }, { 119365, 119366 }, { 119552, 119639 }, { 126976, 127020 }, { 127024, 127124 }, { 127136, 127151 }, { 127153, 127167 }, { 127169, 127184 }, { 127185, 127200 }, { 127248, 127279 }, { 127280, 127338 }, { 127344, 127387 }, { 127462, 127491 }, { 127504, 127547 }, { 127552, 127561 }, { 127568, 127570 }, { 127744, 127777 }, { 127792, 127798 }, { 127799, 127869 }, { 127872, 127892 }, { 127904, 127941 }, { 127942, 127947 }, { 127968, 127985 }, { 128000, 128063 }, { 128064, 128065 }, { 128066, 128248 }, { 128249, 128253 }, { 128256, 128318 }, { 128336, 128360 }, { 128507, 128512 }, { 128513, 128529 }, { 128530, 128533 }, { 128534, 128535 }, { 128536, 128537 }, { 128538, 128539 }, { 128540, 128543 }, { 128544, 128550 }, { 128552, 128556 }, { 128557, 128558 }, { 128560, 128564 }, { 128565, 128577 }, { 128581, 128592 }, { 128640, 128710 }, { 128768, 128884 }, { -1, -1 } };
@@ -18,11 +18,11 @@ static unicode::range s_RangeCc[] = { { 0, 32 }, { 127, 160 }, { -1, -1 } };
 static unicode::range s_RangeLu[] = { { 65, 91 }, { 192, 215 }, { 216, 223 }, { 256, 257 }, { 258, 259 }, { 260, 261 }, { 262, 263 }, { 264, 265 }, { 266, 267 }, { 268, 269 }, { 270, 271 }, { 272, 273 }, { 274, 275 }, { 276, 277 }, { 278, 279 }, { 280, 281 }, { 282, 283 }, { 284, 285 }, { 286, 287 }, { 288, 289 }, { 290, 291 }, { 292, 293 }, { 294, 295 }, { 296, 297 }, { 298, 299 }, { 300, 301 }, { 302, 303 }, { 304, 305 }, { 306, 307 }, { 308, 309 }, { 310, 311 }, { 313, 314 }, { 315, 316 }, { 317, 318 }, { 319, 320 }, { 321, 322 }, { 323, 324 }, { 325, 326 }, { 327, 328 }, { 330, 331 }, { 332, 333 }, { 334, 335 }, { 336, 337 }, { 338, 339 }, { 340, 341 }, { 342, 343 }, { 344, 345 }, { 346, 347 }, { 348, 349 }, { 350, 351 }, { 352, 353 }, { 354, 355 }, { 356, 357 }, { 358, 359 }, { 360, 361 }, { 362, 363 }, { 364, 365 }, { 366, 367 }, { 368, 369 }, { 370, 371 }, { 372, 373 }, { 374, 375 }, { 376, 378 }, { 379, 380 }, { 381, 382 }, { 385, 387 }, { 388, 389 }, { 390, 392 }, { 393, 396 }, { 398, 402 }, { 403, 405 }, { 406, 409 }, { 412, 414 }, { 415, 417 }, { 418, 419 }, { 420, 421 }, { 422, 424 }, { 425, 426 }, { 428, 429 }, { 430, 432 }, { 433, 436 }, { 437, 438 }, { 439, 441 }, { 444, 445 }, { 452, 453 }, { 455, 456 }, { 458, 459 }, { 461, 462 }, { 463, 464 }, { 465, 466 }, { 467, 468 }, { 469, 470 }, { 471, 472 }, { 473, 474 }, { 475, 476 }, { 478, 479 }, { 480, 481 }, { 482, 483 }, { 484, 485 }, { 486, 487 }, { 488, 489 }, { 490, 491 }, { 492, 493 }, { 494, 495 }, { 497, 498 }, { 500, 501 }, { 502, 505 }, { 506, 507 }, { 508, 509 }, { 510, 511 }, { 512, 513 }, { 514, 515 }, { 516, 517 }, { 518, 519 }, { 520, 521 }, { 522, 523 }, { 524, 525 }, { 526, 527 }, { 528, 529 }, { 530, 531 }, { 532, 533 }, { 534, 535 }, { 536, 537 }, { 538, 539 }, { 540, 541 }, { 542, 543 }, { 544, 545 }, { 546, 547 }, { 548, 549 }, { 550, 551 }, { 552, 553 }, { 554, 555 }, { 556, 557 }, { 558, 559 }, { 560, 561 }, { 562, 563 }, { 570, 572 }, { 573, 575 }, { 577, 578 }, { 579, 583 }, { 584, 585 }, { 586, 587 }, { 588, 589 }, { 590, 591 }, { 880, 881 }, { 882, 883 }, { 886, 887 }, { 902, 903 }, { 904, 907 }, { 908, 909 }, { 910, 912 }, { 913, 930 }, { 931, 940 }, { 975, 976 }, { 978, 981 }, { 984, 985 }, { 986, 987 }, { 988, 989 }, { 990, 991 }, { 992, 993 }, { 994, 995 }, { 996, 997 }, { 998, 999 }, { 1000, 1001 }, { 1002, 1003 }, { 1004, 1005 }, { 1006, 1007 }, { 1012, 1013 }, { 1015, 1016 }, { 1017, 1019 }, { 1021, 1072 }, { 1120, 1121 }, { 1122, 1123 }, { 1124, 1125 }, { 1126, 1127 }, { 1128, 1129 }, { 1130, 1131 }, { 1132, 1133 }, { 1134, 1135 }, { 1136, 1137 }, { 1138, 1139 }, { 1140, 1141 }, { 1142, 1143 }, { 1144, 1145 }, { 1146, 1147 }, { 1148, 1149 }, { 1150, 1151 }, { 1152, 1153 }, { 1162, 1163 }, { 1164, 1165 }, { 1166, 1167 }, { 1168, 1169 }, { 1170, 1171 }, { 1172, 1173 }, { 1174, 1175 }, { 1176, 1177 }, { 1178, 1179 }, { 1180, 1181 }, { 1182, 1183 }, { 1184, 1185 }, { 1186, 1187 }, { 1188, 1189 }, { 1190, 1191 }, { 1192, 1193 }, { 1194, 1195 }, { 1196, 1197 }, { 1198, 1199 }, { 1200, 1201 }, { 1202, 1203 }, { 1204, 1205 }, { 1206, 1207 }, { 1208, 1209 }, { 1210, 1211 }, { 1212, 1213 }, { 1214, 1215 }, { 1216, 1218 }, { 1219, 1220 }, { 1221, 1222 }, { 1223, 1224 }, { 1225, 1226 }, { 1227, 1228 }, { 1229, 1230 }, { 1232, 1233 }, { 1234, 1235 }, { 1236, 1237 }, { 1238, 1239 }, { 1240, 1241 }, { 1242, 1243 }, { 1244, 1245 }, { 1246, 1247 }, { 1248, 1249 }, { 1250, 1251 }, { 1252, 1253 }, { 1254, 1255 }, { 1256, 1257 }, { 1258, 1259 }, { 1260, 1261 }, { 1262, 1263 }, { 1264, 1265 }, { 1266, 1267 }, { 1268, 1269 }, { 1270, 1271 }, { 1272, 1273 }, { 1274, 1275 }, { 1276, 1277 }, { 1278, 1279 }, { 1280, 1281 }, { 1282, 1283 }, { 1284, 1285 }, { 1286, 1287 }, { 1288, 1289 }, { 1290, 1291 }, { 1292, 1293 }, { 1294, 1295 }, { 1296, 1297 }, { 1298, 1299 }, { 1300, 1301 }, { 1302, 1303 }, { 1304, 1305 }, { 1306, 1307 }, { 1308, 1309 }, { 1310, 1311 }, { 1312, 1313 }, { 1314, 1315 }, { 1316, 1317 }, { 1318, 1319 }, { 1329, 1367 }, { 4256, 4294 }, { 7680, 7681 }, { 7682, 7683 }, { 7684, 7685 }, { 7686, 7687 }, { 7688, 7689 }, { 7690, 7691 }, { 7692, 7693 }, { 7694, 7695 }, { 7696, 7697 }, { 7698, 7699 }, { 7700, 7701 }, { 7702, 7703 }, { 7704, 7705 }, { 7706, 7707 }, { 7708, 7709 }, { 7710, 7711 }, { 7712, 7713 }, { 7714, 7715 }, { 7716, 7717 }, { 7718, 7719 }, { 7720, 7721 }, { 7722, 7723 }, { 7724, 7725 }, { 7726, 7727 }, { 7728, 7729 }, { 7730, 7731 }, { 7732, 7733 }, { 7734, 7735 }, { 7736, 7737 }, { 7738, 7739 }, { 7740, 7741 }, { 7742, 7743 }, { 7744, 7745 }, { 7746, 7747 }, { 7748, 7749 }, { 7750, 7751 }, { 7752, 7753 }, { 7754, 7755 }, { 7756, 7757 }, { 7758, 7759 }, { 7760, 7761 }, { 7762, 7763 }, { 7764, 7765 }, { 7766, 7767 }, { 7768, 7769 }, { 7770, 7771 }, { 7772, 7773 }, { 7774, 7775 }, { 7776, 7777 }, { 7778, 7779 }, { 7780, 7781 }, { 7782, 7783 }, { 7784, 7785 }, { 7786, 7787 }, { 7788, 7789 }, { 7790, 7791 }, { 7792, 7793 }, { 7794, 7795 }, { 7796, 7797 }, { 7798, 7799 }, { 7800, 7801 }, { 7802, 7803 }, { 7804, 7805 }, { 7806, 7807 }, { 7808, 7809 }, { 7810, 7811 }, { 7812, 7813 }, { 7814, 7815 }, { 7816, 7817 }, { 7818, 7819 }, { 7820, 7821 }, { 7822, 7823 }, { 7824, 7825 }, { 7826, 7827 }, { 7828, 7829 }, { 7838, 7839 }, { 7840, 7841 }, { 7842, 7843 }, { 7844, 7845 }, { 7846, 7847 }, { 7848, 7849 }, { 7850, 7851 }, { 7852, 7853 }, { 7854, 7855 }, { 7856, 7857 }, { 7858, 7859 }, { 7860, 7861 }, { 7862, 7863 }, { 7864, 7865 }, { 7866, 7867 }, { 7868, 7869 }, { 7870, 7871 }, { 7872, 7873 }, { 7874, 7875 }, { 7876, 7877 }, { 7878, 7879 }, { 7880, 7881 }, { 7882, 7883 }, { 7884, 7885 }, { 7886, 7887 }, { 7888, 7889 }, { 7890, 7891 }, { 7892, 7893 }, { 7894, 7895 }, { 7896, 7897 }, { 7898, 7899 }, { 7900, 7901 }, { 7902, 7903 }, { 7904, 7905 }, { 7906, 7907 }, { 7908, 7909 }, { 7910, 7911 }, { 7912, 7913 }, { 7914, 7915 }, { 7916, 7917 }, { 7918, 7919 }, { 7920, 7921 }, { 7922, 7923 }, { 7924, 7925 }, { 7926, 7927 }, { 7928, 7929 }, { 7930, 7931 }, { 7932, 7933 }, { 7934, 7935 }, { 7944, 7952 }, { 7960, 7966 }, { 7976, 7984 }, { 7992, 8000 }, { 8008, 8014 }, { 8025, 8026 }, { 8027, 8028 }, { 8029, 8030 }, { 8031, 8032 }, { 8040, 8048 }, { 8120, 8124 }, { 8136, 8140 }, { 8152, 8156 }, { 8168, 8173 }, { 8184, 8188 }, { 8450, 8451 }, { 8455, 8456 }, { 8459, 8462 }, { 8464, 8467 }, { 8469, 8470 }, { 8473, 8478 }, { 8484, 8485 }, { 8486, 8487 }, { 8488, 8489 }, { 8490, 8494 }, { 8496, 8500 }, { 8510, 8512 }, { 8517, 8518 }, { 8579, 8580 }, { 11264, 11311 }, { 11360, 11361 }, { 11362, 11365 }, { 11367, 11368 }, { 11369, 11370 }, { 11371, 11372 }, { 11373, 11377 }, { 11378, 11379 }, { 11381, 11382 }, { 11390, 11393 }, { 11394, 11395 }, { 11396, 11397 }, { 11398, 11399 }, { 11400, 11401 }, { 11402, 11403 }, { 11404, 11405 }, { 11406, 11407 }, { 11408, 11409 }, { 11410, 11411 }, { 11412, 11413 }, { 11414, 11415 }, { 11416, 11417 }, { 11418, 11419 }, { 11420, 11421 }, { 11422, 11423 }, { 11424, 11425 }, { 11426, 11427 }, { 11428, 11429 }, { 11430, 11431 }, { 11432, 11433 }, { 11434, 11435 }, { 11436, 11437 }, { 11438, 11439 }, { 11440, 11441 }, { 11442, 11443 }, { 11444, 11445 }, { 11446, 11447 }, { 11448, 11449 }, { 11450, 11451 }, { 11452, 11453 }, { 11454, 11455 }, { 11456, 11457 }, { 11458, 11459 }, { 11460, 11461 }, { 11462, 11463 }, { 11464, 11465 }, { 11466, 11467 }, { 11468, 11469 }, { 11470, 11471 }, { 11472, 11473 }, { 11474, 11475 }, { 11476, 11477 }, { 11478, 11479 }, { 11480, 11481 }, { 11482, 11483 }, { 11484, 11485 }, { 11486, 11487 }, { 11488, 11489 }, { 11490, 11491 }, { 11499, 11500 }, { 11501, 11502 }, { 42560, 42561 }, { 42562, 42563 }, { 42564, 42565 }, { 42566, 42567 }, { 42568, 42569 }, { 42570, 42571 }, { 42572, 42573 }, { 42574, 42575 }, { 42576, 42577 }, { 42578, 42579 }, { 42580, 42581 }, { 42582, 42583 }, { 42584, 42585 }, { 42586, 42587 }, { 42588, 42589 }, { 42590, 42591 }, { 42592, 42593 }, { 42594, 42595 }, { 42596, 42597 }, { 42598, 42599 }, { 42600, 42601 }, { 42602, 42603 }, { 42604, 42605 }, { 42624, 42625 }, { 42626, 42627 }, { 42628, 42629 }, { 42630, 42631 }, { 42632, 42633 }, { 42634, 42635 }, { 42636, 42637 }, { 42638, 42639 }, { 42640, 42641 }, { 42642, 42643 }, { 42644, 42645 }, { 42646, 42647 }, { 42786, 42787 }, { 42788, 42789 }, { 42790, 42791 }, { 42792, 42793 }, { 42794, 42795 }, { 42796, 42797 }, { 42798, 42799 }, { 42802, 42803 }, { 42804, 42805 }, { 42806, 42807 }, { 42808, 42809 }, { 42810, 42811 }, { 42812, 42813 }, { 42814, 42815 }, { 42816, 42817 }, { 42818, 42819 }, { 42820, 42821 }, { 42822, 42823 }, { 42824, 42825 }, { 42826, 42827 }, { 42828, 42829 }, { 42830, 42831 }, { 42832, 42833 }, { 42834, 42835 }, { 42836, 42837 }, { 42838, 42839 }, { 42840, 42841 }, { 42842, 42843 }, { 42844, 42845 }, { 42846, 42847 }, { 42848, 42849 }, { 42850, 42851 }, { 42852, 42853 }, { 42854, 42855 }, { 42856, 42857 }, { 42858, 42859 }, { 42860, 42861 }, { 42862, 42863 }, { 42873, 42874 }, { 42875, 42876 }, { 42877, 42879 }, { 42880, 42881 }, { 42882, 42883 }, { 42884, 42885 }, { 42886, 42887 }, { 42891, 42892 }, { 42893, 42894 }, { 42896, 42897 }, { 42912, 42913 }, { 42914, 42915 }, { 42916, 42917 }, { 42918, 42919 }, { 42920, 42921 }, { 65313, 65339 }, { 66560, 66600 }, { 119808, 119834 }, { 119860, 119886 }, { 119912, 119938 }, { 119964, 119965 }, { 119966, 119968 }, { 119970, 119971 }, { 119973, 119975 }, { 119977, 119981 }, { 119982, 119990 }, { 120016, 120042 }, { 120068, 120070 }, { 120071, 120075 }, { 120077, 120085 }, { 120086, 120093 }, { 120120, 120122 }, { 120123, 120127 }, { 120128, 120133 }, { 120134, 120135 }, { 120138, 120145 }, { 120172, 120198 }, { 120224, 120250 }, { 120276, 120302 }, { 120328, 120354 }, { 120380, 120406 }, { 120432, 120458 }, { 120488, 120513 }, { 120546, 120571 }, { 120604, 120629 }, { 120662, 120687 }, { 120720, 120745 }, { 120778, 120779 }, { -1, -1 } };
 static unicode::range s_RangeMc[] = { { 2307, 2308 }, { 2363, 2364 }, { 2366, 2369 }, { 2377, 2381 }, { 2382, 2384 }, { 2434, 2436 }, { 2494, 2497 }, { 2503, 2505 }, { 2507, 2509 }, { 2519, 2520 }, { 2563, 2564 }, { 2622, 2625 }, { 2691, 2692 }, { 2750, 2753 }, { 2761, 2762 }, { 2763, 2765 }, { 2818, 2820 }, { 2878, 2879 }, { 2880, 2881 }, { 2887, 2889 }, { 2891, 2893 }, { 2903, 2904 }, { 3006, 3008 }, { 3009, 3011 }, { 3014, 3017 }, { 3018, 3021 }, { 3031, 3032 }, { 3073, 3076 }, { 3137, 3141 }, { 3202, 3204 }, { 3262, 3263 }, { 3264, 3269 }, { 3271, 3273 }, { 3274, 3276 }, { 3285, 3287 }, { 3330, 3332 }, { 3390, 3393 }, { 3398, 3401 }, { 3402, 3405 }, { 3415, 3416 }, { 3458, 3460 }, { 3535, 3538 }, { 3544, 3552 }, { 3570, 3572 }, { 3902, 3904 }, { 3967, 3968 }, { 4139, 4141 }, { 4145, 4146 }, { 4152, 4153 }, { 4155, 4157 }, { 4182, 4184 }, { 4194, 4197 }, { 4199, 4206 }, { 4227, 4229 }, { 4231, 4237 }, { 4239, 4240 }, { 4250, 4253 }, { 6070, 6071 }, { 6078, 6086 }, { 6087, 6089 }, { 6435, 6439 }, { 6441, 6444 }, { 6448, 6450 }, { 6451, 6457 }, { 6576, 6593 }, { 6600, 6602 }, { 6681, 6684 }, { 6741, 6742 }, { 6743, 6744 }, { 6753, 6754 }, { 6755, 6757 }, { 6765, 6771 }, { 6916, 6917 }, { 6965, 6966 }, { 6971, 6972 }, { 6973, 6978 }, { 6979, 6981 }, { 7042, 7043 }, { 7073, 7074 }, { 7078, 7080 }, { 7082, 7083 }, { 7143, 7144 }, { 7146, 7149 }, { 7150, 7151 }, { 7154, 7156 }, { 7204, 7212 }, { 7220, 7222 }, { 7393, 7394 }, { 7410, 7411 }, { 43043, 43045 }, { 43047, 43048 }, { 43136, 43138 }, { 43188, 43204 }, { 43346, 43348 }, { 43395, 43396 }, { 43444, 43446 }, { 43450, 43452 }, { 43453, 43457 }, { 43567, 43569 }, { 43571, 43573 }, { 43597, 43598 }, { 43643, 43644 }, { 44003, 44005 }, { 44006, 44008 }, { 44009, 44011 }, { 44012, 44013 }, { 69632, 69633 }, { 69634, 69635 }, { 69762, 69763 }, { 69808, 69811 }, { 69815, 69817 }, { 119141, 119143 }, { 119149, 119155 }, { -1, -1 } };
 static unicode::range s_RangeSm[] = { { 43, 44 }, { 60, 63 }, { 124, 125 }, { 126, 127 }, { 172, 173 }, { 177, 178 }, { 215, 216 }, { 247, 248 }, { 1014, 1015 }, { 1542, 1545 }, { 8260, 8261 }, { 8274, 8275 }, { 8314, 8317 }, { 8330, 8333 }, { 8472, 8473 }, { 8512, 8517 }, { 8523, 8524 }, { 8592, 8597 }, { 8602, 8604 }, { 8608, 8609 }, { 8611, 8612 }, { 8614, 8615 }, { 8622, 8623 }, { 8654, 8656 }, { 8658, 8659 }, { 8660, 8661 }, { 8692, 8960 }, { 8968, 8972 }, { 8992, 8994 }, { 9084, 9085 }, { 9115, 9140 }, { 9180, 9186 }, { 9655, 9656 }, { 9665, 9666 }, { 9720, 9728 }, { 9839, 9840 }, { 10176, 10181 }, { 10183, 10187 }, { 10188, 10189 }, { 10190, 10214 }, { 10224, 10240 }, { 10496, 10627 }, { 10649, 10712 }, { 10716, 10748 }, { 10750, 11008 }, { 11056, 11077 }, { 11079, 11085 }, { 64297, 64298 }, { 65122, 65123 }, { 65124, 65127 }, { 65291, 65292 }, { 65308, 65311 }, { 65372, 65373 }, { 65374, 65375 }, { 65506, 65507 }, { 65513, 65517 }, { 120513, 120514 }, { 120539, 120540 }, { 120571, 120572 }, { 120597, 120598 }, { 120629, 120630 }, { 120655, 120656 }, { 120687, 120688 }, { 120713, 120714 }, { 120745, 120746 }, { 120771, 120772 }, { -1, -1 } };
-static unicode::range s_RangeCs[] = { { 55296, 55297 }, { 56191, 56193 }, { 56319, 56321 }, { 57343, 57344 }, { -1, -1 } };
+static unicode::range s_RangeCs[] = { { 55296, 57344 }, { -1, -1 } };
 static unicode::range s_RangeLt[] = { { 453, 454 }, { 456, 457 }, { 459, 460 }, { 498, 499 }, { 8072, 8080 }, { 8088, 8096 }, { 8104, 8112 }, { 8124, 8125 }, { 8140, 8141 }, { 8188, 8189 }, { -1, -1 } };
 static unicode::range s_RangePc[] = { { 95, 96 }, { 8255, 8257 }, { 8276, 8277 }, { 65075, 65077 }, { 65101, 65104 }, { 65343, 65344 }, { -1, -1 } };
 static unicode::range s_RangeNl[] = { { 5870, 5873 }, { 8544, 8579 }, { 8581, 8585 }, { 12295, 12296 }, { 12321, 12330 }, { 12344, 12347 }, { 42726, 42736 }, { 65856, 65909 }, { 66369, 66370 }, { 66378, 66379 }, { 66513, 66518 }, { 74752, 74851 }, { -1, -1 } };
-static unicode::range s_RangeLo[] = { { 443, 444 }, { 448, 452 }, { 660, 661 }, { 1488, 1515 }, { 1520, 1523 }, { 1568, 1600 }, { 1601, 1611 }, { 1646, 1648 }, { 1649, 1748 }, { 1749, 1750 }, { 1774, 1776 }, { 1786, 1789 }, { 1791, 1792 }, { 1808, 1809 }, { 1810, 1840 }, { 1869, 1958 }, { 1969, 1970 }, { 1994, 2027 }, { 2048, 2070 }, { 2112, 2137 }, { 2308, 2362 }, { 2365, 2366 }, { 2384, 2385 }, { 2392, 2402 }, { 2418, 2424 }, { 2425, 2432 }, { 2437, 2445 }, { 2447, 2449 }, { 2451, 2473 }, { 2474, 2481 }, { 2482, 2483 }, { 2486, 2490 }, { 2493, 2494 }, { 2510, 2511 }, { 2524, 2526 }, { 2527, 2530 }, { 2544, 2546 }, { 2565, 2571 }, { 2575, 2577 }, { 2579, 2601 }, { 2602, 2609 }, { 2610, 2612 }, { 2613, 2615 }, { 2616, 2618 }, { 2649, 2653 }, { 2654, 2655 }, { 2674, 2677 }, { 2693, 2702 }, { 2703, 2706 }, { 2707, 2729 }, { 2730, 2737 }, { 2738, 2740 }, { 2741, 2746 }, { 2749, 2750 }, { 2768, 2769 }, { 2784, 2786 }, { 2821, 2829 }, { 2831, 2833 }, { 2835, 2857 }, { 2858, 2865 }, { 2866, 2868 }, { 2869, 2874 }, { 2877, 2878 }, { 2908, 2910 }, { 2911, 2914 }, { 2929, 2930 }, { 2947, 2948 }, { 2949, 2955 }, { 2958, 2961 }, { 2962, 2966 }, { 2969, 2971 }, { 2972, 2973 }, { 2974, 2976 }, { 2979, 2981 }, { 2984, 2987 }, { 2990, 3002 }, { 3024, 3025 }, { 3077, 3085 }, { 3086, 3089 }, { 3090, 3113 }, { 3114, 3124 }, { 3125, 3130 }, { 3133, 3134 }, { 3160, 3162 }, { 3168, 3170 }, { 3205, 3213 }, { 3214, 3217 }, { 3218, 3241 }, { 3242, 3252 }, { 3253, 3258 }, { 3261, 3262 }, { 3294, 3295 }, { 3296, 3298 }, { 3313, 3315 }, { 3333, 3341 }, { 3342, 3345 }, { 3346, 3387 }, { 3389, 3390 }, { 3406, 3407 }, { 3424, 3426 }, { 3450, 3456 }, { 3461, 3479 }, { 3482, 3506 }, { 3507, 3516 }, { 3517, 3518 }, { 3520, 3527 }, { 3585, 3633 }, { 3634, 3636 }, { 3648, 3654 }, { 3713, 3715 }, { 3716, 3717 }, { 3719, 3721 }, { 3722, 3723 }, { 3725, 3726 }, { 3732, 3736 }, { 3737, 3744 }, { 3745, 3748 }, { 3749, 3750 }, { 3751, 3752 }, { 3754, 3756 }, { 3757, 3761 }, { 3762, 3764 }, { 3773, 3774 }, { 3776, 3781 }, { 3804, 3806 }, { 3840, 3841 }, { 3904, 3912 }, { 3913, 3949 }, { 3976, 3981 }, { 4096, 4139 }, { 4159, 4160 }, { 4176, 4182 }, { 4186, 4190 }, { 4193, 4194 }, { 4197, 4199 }, { 4206, 4209 }, { 4213, 4226 }, { 4238, 4239 }, { 4304, 4347 }, { 4352, 4681 }, { 4682, 4686 }, { 4688, 4695 }, { 4696, 4697 }, { 4698, 4702 }, { 4704, 4745 }, { 4746, 4750 }, { 4752, 4785 }, { 4786, 4790 }, { 4792, 4799 }, { 4800, 4801 }, { 4802, 4806 }, { 4808, 4823 }, { 4824, 4881 }, { 4882, 4886 }, { 4888, 4955 }, { 4992, 5008 }, { 5024, 5109 }, { 5121, 5741 }, { 5743, 5760 }, { 5761, 5787 }, { 5792, 5867 }, { 5888, 5901 }, { 5902, 5906 }, { 5920, 5938 }, { 5952, 5970 }, { 5984, 5997 }, { 5998, 6001 }, { 6016, 6068 }, { 6108, 6109 }, { 6176, 6211 }, { 6212, 6264 }, { 6272, 6313 }, { 6314, 6315 }, { 6320, 6390 }, { 6400, 6429 }, { 6480, 6510 }, { 6512, 6517 }, { 6528, 6572 }, { 6593, 6600 }, { 6656, 6679 }, { 6688, 6741 }, { 6917, 6964 }, { 6981, 6988 }, { 7043, 7073 }, { 7086, 7088 }, { 7104, 7142 }, { 7168, 7204 }, { 7245, 7248 }, { 7258, 7288 }, { 7401, 7405 }, { 7406, 7410 }, { 8501, 8505 }, { 11568, 11622 }, { 11648, 11671 }, { 11680, 11687 }, { 11688, 11695 }, { 11696, 11703 }, { 11704, 11711 }, { 11712, 11719 }, { 11720, 11727 }, { 11728, 11735 }, { 11736, 11743 }, { 12294, 12295 }, { 12348, 12349 }, { 12353, 12439 }, { 12447, 12448 }, { 12449, 12539 }, { 12543, 12544 }, { 12549, 12590 }, { 12593, 12687 }, { 12704, 12731 }, { 12784, 12800 }, { 13312, 13313 }, { 19893, 19894 }, { 19968, 19969 }, { 40907, 40908 }, { 40960, 40981 }, { 40982, 42125 }, { 42192, 42232 }, { 42240, 42508 }, { 42512, 42528 }, { 42538, 42540 }, { 42606, 42607 }, { 42656, 42726 }, { 43003, 43010 }, { 43011, 43014 }, { 43015, 43019 }, { 43020, 43043 }, { 43072, 43124 }, { 43138, 43188 }, { 43250, 43256 }, { 43259, 43260 }, { 43274, 43302 }, { 43312, 43335 }, { 43360, 43389 }, { 43396, 43443 }, { 43520, 43561 }, { 43584, 43587 }, { 43588, 43596 }, { 43616, 43632 }, { 43633, 43639 }, { 43642, 43643 }, { 43648, 43696 }, { 43697, 43698 }, { 43701, 43703 }, { 43705, 43710 }, { 43712, 43713 }, { 43714, 43715 }, { 43739, 43741 }, { 43777, 43783 }, { 43785, 43791 }, { 43793, 43799 }, { 43808, 43815 }, { 43816, 43823 }, { 43968, 44003 }, { 44032, 44033 }, { 55203, 55204 }, { 55216, 55239 }, { 55243, 55292 }, { 63744, 64046 }, { 64048, 64110 }, { 64112, 64218 }, { 64285, 64286 }, { 64287, 64297 }, { 64298, 64311 }, { 64312, 64317 }, { 64318, 64319 }, { 64320, 64322 }, { 64323, 64325 }, { 64326, 64434 }, { 64467, 64830 }, { 64848, 64912 }, { 64914, 64968 }, { 65008, 65020 }, { 65136, 65141 }, { 65142, 65277 }, { 65382, 65392 }, { 65393, 65438 }, { 65440, 65471 }, { 65474, 65480 }, { 65482, 65488 }, { 65490, 65496 }, { 65498, 65501 }, { 65536, 65548 }, { 65549, 65575 }, { 65576, 65595 }, { 65596, 65598 }, { 65599, 65614 }, { 65616, 65630 }, { 65664, 65787 }, { 66176, 66205 }, { 66208, 66257 }, { 66304, 66335 }, { 66352, 66369 }, { 66370, 66378 }, { 66432, 66462 }, { 66464, 66500 }, { 66504, 66512 }, { 66640, 66718 }, { 67584, 67590 }, { 67592, 67593 }, { 67594, 67638 }, { 67639, 67641 }, { 67644, 67645 }, { 67647, 67670 }, { 67840, 67862 }, { 67872, 67898 }, { 68096, 68097 }, { 68112, 68116 }, { 68117, 68120 }, { 68121, 68148 }, { 68192, 68221 }, { 68352, 68406 }, { 68416, 68438 }, { 68448, 68467 }, { 68608, 68681 }, { 69635, 69688 }, { 69763, 69808 }, { 73728, 74607 }, { 77824, 78895 }, { 92160, 92729 }, { 110592, 110594 }, { 131072, 131073 }, { 173782, 173783 }, { 173824, 173825 }, { 177972, 177973 }, { 177984, 177985 }, { 178205, 178206 }, { 194560, 195102 }, { -1, -1 } };
+static unicode::range s_RangeLo[] = { { 443, 444 }, { 448, 452 }, { 660, 661 }, { 1488, 1515 }, { 1520, 1523 }, { 1568, 1600 }, { 1601, 1611 }, { 1646, 1648 }, { 1649, 1748 }, { 1749, 1750 }, { 1774, 1776 }, { 1786, 1789 }, { 1791, 1792 }, { 1808, 1809 }, { 1810, 1840 }, { 1869, 1958 }, { 1969, 1970 }, { 1994, 2027 }, { 2048, 2070 }, { 2112, 2137 }, { 2308, 2362 }, { 2365, 2366 }, { 2384, 2385 }, { 2392, 2402 }, { 2418, 2424 }, { 2425, 2432 }, { 2437, 2445 }, { 2447, 2449 }, { 2451, 2473 }, { 2474, 2481 }, { 2482, 2483 }, { 2486, 2490 }, { 2493, 2494 }, { 2510, 2511 }, { 2524, 2526 }, { 2527, 2530 }, { 2544, 2546 }, { 2565, 2571 }, { 2575, 2577 }, { 2579, 2601 }, { 2602, 2609 }, { 2610, 2612 }, { 2613, 2615 }, { 2616, 2618 }, { 2649, 2653 }, { 2654, 2655 }, { 2674, 2677 }, { 2693, 2702 }, { 2703, 2706 }, { 2707, 2729 }, { 2730, 2737 }, { 2738, 2740 }, { 2741, 2746 }, { 2749, 2750 }, { 2768, 2769 }, { 2784, 2786 }, { 2821, 2829 }, { 2831, 2833 }, { 2835, 2857 }, { 2858, 2865 }, { 2866, 2868 }, { 2869, 2874 }, { 2877, 2878 }, { 2908, 2910 }, { 2911, 2914 }, { 2929, 2930 }, { 2947, 2948 }, { 2949, 2955 }, { 2958, 2961 }, { 2962, 2966 }, { 2969, 2971 }, { 2972, 2973 }, { 2974, 2976 }, { 2979, 2981 }, { 2984, 2987 }, { 2990, 3002 }, { 3024, 3025 }, { 3077, 3085 }, { 3086, 3089 }, { 3090, 3113 }, { 3114, 3124 }, { 3125, 3130 }, { 3133, 3134 }, { 3160, 3162 }, { 3168, 3170 }, { 3205, 3213 }, { 3214, 3217 }, { 3218, 3241 }, { 3242, 3252 }, { 3253, 3258 }, { 3261, 3262 }, { 3294, 3295 }, { 3296, 3298 }, { 3313, 3315 }, { 3333, 3341 }, { 3342, 3345 }, { 3346, 3387 }, { 3389, 3390 }, { 3406, 3407 }, { 3424, 3426 }, { 3450, 3456 }, { 3461, 3479 }, { 3482, 3506 }, { 3507, 3516 }, { 3517, 3518 }, { 3520, 3527 }, { 3585, 3633 }, { 3634, 3636 }, { 3648, 3654 }, { 3713, 3715 }, { 3716, 3717 }, { 3719, 3721 }, { 3722, 3723 }, { 3725, 3726 }, { 3732, 3736 }, { 3737, 3744 }, { 3745, 3748 }, { 3749, 3750 }, { 3751, 3752 }, { 3754, 3756 }, { 3757, 3761 }, { 3762, 3764 }, { 3773, 3774 }, { 3776, 3781 }, { 3804, 3806 }, { 3840, 3841 }, { 3904, 3912 }, { 3913, 3949 }, { 3976, 3981 }, { 4096, 4139 }, { 4159, 4160 }, { 4176, 4182 }, { 4186, 4190 }, { 4193, 4194 }, { 4197, 4199 }, { 4206, 4209 }, { 4213, 4226 }, { 4238, 4239 }, { 4304, 4347 }, { 4352, 4681 }, { 4682, 4686 }, { 4688, 4695 }, { 4696, 4697 }, { 4698, 4702 }, { 4704, 4745 }, { 4746, 4750 }, { 4752, 4785 }, { 4786, 4790 }, { 4792, 4799 }, { 4800, 4801 }, { 4802, 4806 }, { 4808, 4823 }, { 4824, 4881 }, { 4882, 4886 }, { 4888, 4955 }, { 4992, 5008 }, { 5024, 5109 }, { 5121, 5741 }, { 5743, 5760 }, { 5761, 5787 }, { 5792, 5867 }, { 5888, 5901 }, { 5902, 5906 }, { 5920, 5938 }, { 5952, 5970 }, { 5984, 5997 }, { 5998, 6001 }, { 6016, 6068 }, { 6108, 6109 }, { 6176, 6211 }, { 6212, 6264 }, { 6272, 6313 }, { 6314, 6315 }, { 6320, 6390 }, { 6400, 6429 }, { 6480, 6510 }, { 6512, 6517 }, { 6528, 6572 }, { 6593, 6600 }, { 6656, 6679 }, { 6688, 6741 }, { 6917, 6964 }, { 6981, 6988 }, { 7043, 7073 }, { 7086, 7088 }, { 7104, 7142 }, { 7168, 7204 }, { 7245, 7248 }, { 7258, 7288 }, { 7401, 7405 }, { 7406, 7410 }, { 8501, 8505 }, { 11568, 11622 }, { 11648, 11671 }, { 11680, 11687 }, { 11688, 11695 }, { 11696, 11703 }, { 11704, 11711 }, { 11712, 11719 }, { 11720, 11727 }, { 11728, 11735 }, { 11736, 11743 }, { 12294, 12295 }, { 12348, 12349 }, { 12353, 12439 }, { 12447, 12448 }, { 12449, 12539 }, { 12543, 12544 }, { 12549, 12590 }, { 12593, 12687 }, { 12704, 12731 }, { 12784, 12800 }, { 13312, 19894 }, { 19968, 40908 }, { 40960, 40981 }, { 40982, 42125 }, { 42192, 42232 }, { 42240, 42508 }, { 42512, 42528 }, { 42538, 42540 }, { 42606, 42607 }, { 42656, 42726 }, { 43003, 43010 }, { 43011, 43014 }, { 43015, 43019 }, { 43020, 43043 }, { 43072, 43124 }, { 43138, 43188 }, { 43250, 43256 }, { 43259, 43260 }, { 43274, 43302 }, { 43312, 43335 }, { 43360, 43389 }, { 43396, 43443 }, { 43520, 43561 }, { 43584, 43587 }, { 43588, 43596 }, { 43616, 43632 }, { 43633, 43639 }, { 43642, 43643 }, { 43648, 43696 }, { 43697, 43698 }, { 43701, 43703 }, { 43705, 43710 }, { 43712, 43713 }, { 43714, 43715 }, { 43739, 43741 }, { 43777, 43783 }, { 43785, 43791 }, { 43793, 43799 }, { 43808, 43815 }, { 43816, 43823 }, { 43968, 44003 }, { 44032, 55204 }, { 55216, 55239 }, { 55243, 55292 }, { 63744, 64046 }, { 64048, 64110 }, { 64112, 64218 }, { 64285, 64286 }, { 64287, 64297 }, { 64298, 64311 }, { 64312, 64317 }, { 64318, 64319 }, { 64320, 64322 }, { 64323, 64325 }, { 64326, 64434 }, { 64467, 64830 }, { 64848, 64912 }, { 64914, 64968 }, { 65008, 65020 }, { 65136, 65141 }, { 65142, 65277 }, { 65382, 65392 }, { 65393, 65438 }, { 65440, 65471 }, { 65474, 65480 }, { 65482, 65488 }, { 65490, 65496 }, { 65498, 65501 }, { 65536, 65548 }, { 65549, 65575 }, { 65576, 65595 }, { 65596, 65598 }, { 65599, 65614 }, { 65616, 65630 }, { 65664, 65787 }, { 66176, 66205 }, { 66208, 66257 }, { 66304, 66335 }, { 66352, 66369 }, { 66370, 66378 }, { 66432, 66462 }, { 66464, 66500 }, { 66504, 66512 }, { 66640, 66718 }, { 67584, 67590 }, { 67592, 67593 }, { 67594, 67638 }, { 67639, 67641 }, { 67644, 67645 }, { 67647, 67670 }, { 67840, 67862 }, { 67872, 67898 }, { 68096, 68097 }, { 68112, 68116 }, { 68117, 68120 }, { 68121, 68148 }, { 68192, 68221 }, { 68352, 68406 }, { 68416, 68438 }, { 68448, 68467 }, { 68608, 68681 }, { 69635, 69688 }, { 69763, 69808 }, { 73728, 74607 }, { 77824, 78895 }, { 92160, 92729 }, { 110592, 110594 }, { 131072, 173783 }, { 173824, 177973 }, { 177984, 178206 }, { 194560, 195102 }, { -1, -1 } };
 static unicode::range s_RangePi[] = { { 171, 172 }, { 8216, 8217 }, { 8219, 8221 }, { 8223, 8224 }, { 8249, 8250 }, { 11778, 11779 }, { 11780, 11781 }, { 11785, 11786 }, { 11788, 11789 }, { 11804, 11805 }, { 11808, 11809 }, { -1, -1 } };
 static unicode::range s_RangeMe[] = { { 1160, 1162 }, { 8413, 8417 }, { 8418, 8421 }, { 42608, 42611 }, { -1, -1 } };
 static unicode::range s_RangeLl[] = { { 97, 123 }, { 170, 171 }, { 181, 182 }, { 186, 187 }, { 223, 247 }, { 248, 256 }, { 257, 258 }, { 259, 260 }, { 261, 262 }, { 263, 264 }, { 265, 266 }, { 267, 268 }, { 269, 270 }, { 271, 272 }, { 273, 274 }, { 275, 276 }, { 277, 278 }, { 279, 280 }, { 281, 282 }, { 283, 284 }, { 285, 286 }, { 287, 288 }, { 289, 290 }, { 291, 292 }, { 293, 294 }, { 295, 296 }, { 297, 298 }, { 299, 300 }, { 301, 302 }, { 303, 304 }, { 305, 306 }, { 307, 308 }, { 309, 310 }, { 311, 313 }, { 314, 315 }, { 316, 317 }, { 318, 319 }, { 320, 321 }, { 322, 323 }, { 324, 325 }, { 326, 327 }, { 328, 330 }, { 331, 332 }, { 333, 334 }, { 335, 336 }, { 337, 338 }, { 339, 340 }, { 341, 342 }, { 343, 344 }, { 345, 346 }, { 347, 348 }, { 349, 350 }, { 351, 352 }, { 353, 354 }, { 355, 356 }, { 357, 358 }, { 359, 360 }, { 361, 362 }, { 363, 364 }, { 365, 366 }, { 367, 368 }, { 369, 370 }, { 371, 372 }, { 373, 374 }, { 375, 376 }, { 378, 379 }, { 380, 381 }, { 382, 385 }, { 387, 388 }, { 389, 390 }, { 392, 393 }, { 396, 398 }, { 402, 403 }, { 405, 406 }, { 409, 412 }, { 414, 415 }, { 417, 418 }, { 419, 420 }, { 421, 422 }, { 424, 425 }, { 426, 428 }, { 429, 430 }, { 432, 433 }, { 436, 437 }, { 438, 439 }, { 441, 443 }, { 445, 448 }, { 454, 455 }, { 457, 458 }, { 460, 461 }, { 462, 463 }, { 464, 465 }, { 466, 467 }, { 468, 469 }, { 470, 471 }, { 472, 473 }, { 474, 475 }, { 476, 478 }, { 479, 480 }, { 481, 482 }, { 483, 484 }, { 485, 486 }, { 487, 488 }, { 489, 490 }, { 491, 492 }, { 493, 494 }, { 495, 497 }, { 499, 500 }, { 501, 502 }, { 505, 506 }, { 507, 508 }, { 509, 510 }, { 511, 512 }, { 513, 514 }, { 515, 516 }, { 517, 518 }, { 519, 520 }, { 521, 522 }, { 523, 524 }, { 525, 526 }, { 527, 528 }, { 529, 530 }, { 531, 532 }, { 533, 534 }, { 535, 536 }, { 537, 538 }, { 539, 540 }, { 541, 542 }, { 543, 544 }, { 545, 546 }, { 547, 548 }, { 549, 550 }, { 551, 552 }, { 553, 554 }, { 555, 556 }, { 557, 558 }, { 559, 560 }, { 561, 562 }, { 563, 570 }, { 572, 573 }, { 575, 577 }, { 578, 579 }, { 583, 584 }, { 585, 586 }, { 587, 588 }, { 589, 590 }, { 591, 660 }, { 661, 688 }, { 881, 882 }, { 883, 884 }, { 887, 888 }, { 891, 894 }, { 912, 913 }, { 940, 975 }, { 976, 978 }, { 981, 984 }, { 985, 986 }, { 987, 988 }, { 989, 990 }, { 991, 992 }, { 993, 994 }, { 995, 996 }, { 997, 998 }, { 999, 1000 }, { 1001, 1002 }, { 1003, 1004 }, { 1005, 1006 }, { 1007, 1012 }, { 1013, 1014 }, { 1016, 1017 }, { 1019, 1021 }, { 1072, 1120 }, { 1121, 1122 }, { 1123, 1124 }, { 1125, 1126 }, { 1127, 1128 }, { 1129, 1130 }, { 1131, 1132 }, { 1133, 1134 }, { 1135, 1136 }, { 1137, 1138 }, { 1139, 1140 }, { 1141, 1142 }, { 1143, 1144 }, { 1145, 1146 }, { 1147, 1148 }, { 1149, 1150 }, { 1151, 1152 }, { 1153, 1154 }, { 1163, 1164 }, { 1165, 1166 }, { 1167, 1168 }, { 1169, 1170 }, { 1171, 1172 }, { 1173, 1174 }, { 1175, 1176 }, { 1177, 1178 }, { 1179, 1180 }, { 1181, 1182 }, { 1183, 1184 }, { 1185, 1186 }, { 1187, 1188 }, { 1189, 1190 }, { 1191, 1192 }, { 1193, 1194 }, { 1195, 1196 }, { 1197, 1198 }, { 1199, 1200 }, { 1201, 1202 }, { 1203, 1204 }, { 1205, 1206 }, { 1207, 1208 }, { 1209, 1210 }, { 1211, 1212 }, { 1213, 1214 }, { 1215, 1216 }, { 1218, 1219 }, { 1220, 1221 }, { 1222, 1223 }, { 1224, 1225 }, { 1226, 1227 }, { 1228, 1229 }, { 1230, 1232 }, { 1233, 1234 }, { 1235, 1236 }, { 1237, 1238 }, { 1239, 1240 }, { 1241, 1242 }, { 1243, 1244 }, { 1245, 1246 }, { 1247, 1248 }, { 1249, 1250 }, { 1251, 1252 }, { 1253, 1254 }, { 1255, 1256 }, { 1257, 1258 }, { 1259, 1260 }, { 1261, 1262 }, { 1263, 1264 }, { 1265, 1266 }, { 1267, 1268 }, { 1269, 1270 }, { 1271, 1272 }, { 1273, 1274 }, { 1275, 1276 }, { 1277, 1278 }, { 1279, 1280 }, { 1281, 1282 }, { 1283, 1284 }, { 1285, 1286 }, { 1287, 1288 }, { 1289, 1290 }, { 1291, 1292 }, { 1293, 1294 }, { 1295, 1296 }, { 1297, 1298 }, { 1299, 1300 }, { 1301, 1302 }, { 1303, 1304 }, { 1305, 1306 }, { 1307, 1308 }, { 1309, 1310 }, { 1311, 1312 }, { 1313, 1314 }, { 1315, 1316 }, { 1317, 1318 }, { 1319, 1320 }, { 1377, 1416 }, { 7424, 7468 }, { 7522, 7544 }, { 7545, 7579 }, { 7681, 7682 }, { 7683, 7684 }, { 7685, 7686 }, { 7687, 7688 }, { 7689, 7690 }, { 7691, 7692 }, { 7693, 7694 }, { 7695, 7696 }, { 7697, 7698 }, { 7699, 7700 }, { 7701, 7702 }, { 7703, 7704 }, { 7705, 7706 }, { 7707, 7708 }, { 7709, 7710 }, { 7711, 7712 }, { 7713, 7714 }, { 7715, 7716 }, { 7717, 7718 }, { 7719, 7720 }, { 7721, 7722 }, { 7723, 7724 }, { 7725, 7726 }, { 7727, 7728 }, { 7729, 7730 }, { 7731, 7732 }, { 7733, 7734 }, { 7735, 7736 }, { 7737, 7738 }, { 7739, 7740 }, { 7741, 7742 }, { 7743, 7744 }, { 7745, 7746 }, { 7747, 7748 }, { 7749, 7750 }, { 7751, 7752 }, { 7753, 7754 }, { 7755, 7756 }, { 7757, 7758 }, { 7759, 7760 }, { 7761, 7762 }, { 7763, 7764 }, { 7765, 7766 }, { 7767, 7768 }, { 7769, 7770 }, { 7771, 7772 }, { 7773, 7774 }, { 7775, 7776 }, { 7777, 7778 }, { 7779, 7780 }, { 7781, 7782 }, { 7783, 7784 }, { 7785, 7786 }, { 7787, 7788 }, { 7789, 7790 }, { 7791, 7792 }, { 7793, 7794 }, { 7795, 7796 }, { 7797, 7798 }, { 7799, 7800 }, { 7801, 7802 }, { 7803, 7804 }, { 7805, 7806 }, { 7807, 7808 }, { 7809, 7810 }, { 7811, 7812 }, { 7813, 7814 }, { 7815, 7816 }, { 7817, 7818 }, { 7819, 7820 }, { 7821, 7822 }, { 7823, 7824 }, { 7825, 7826 }, { 7827, 7828 }, { 7829, 7838 }, { 7839, 7840 }, { 7841, 7842 }, { 7843, 7844 }, { 7845, 7846 }, { 7847, 7848 }, { 7849, 7850 }, { 7851, 7852 }, { 7853, 7854 }, { 7855, 7856 }, { 7857, 7858 }, { 7859, 7860 }, { 7861, 7862 }, { 7863, 7864 }, { 7865, 7866 }, { 7867, 7868 }, { 7869, 7870 }, { 7871, 7872 }, { 7873, 7874 }, { 7875, 7876 }, { 7877, 7878 }, { 7879, 7880 }, { 7881, 7882 }, { 7883, 7884 }, { 7885, 7886 }, { 7887, 7888 }, { 7889, 7890 }, { 7891, 7892 }, { 7893, 7894 }, { 7895, 7896 }, { 7897, 7898 }, { 7899, 7900 }, { 7901, 7902 }, { 7903, 7904 }, { 7905, 7906 }, { 7907, 7908 }, { 7909, 7910 }, { 7911, 7912 }, { 7913, 7914 }, { 7915, 7916 }, { 7917, 7918 }, { 7919, 7920 }, { 7921, 7922 }, { 7923, 7924 }, { 7925, 7926 }, { 7927, 7928 }, { 7929, 7930 }, { 7931, 7932 }, { 7933, 7934 }, { 7935, 7944 }, { 7952, 7958 }, { 7968, 7976 }, { 7984, 7992 }, { 8000, 8006 }, { 8016, 8024 }, { 8032, 8040 }, { 8048, 8062 }, { 8064, 8072 }, { 8080, 8088 }, { 8096, 8104 }, { 8112, 8117 }, { 8118, 8120 }, { 8126, 8127 }, { 8130, 8133 }, { 8134, 8136 }, { 8144, 8148 }, { 8150, 8152 }, { 8160, 8168 }, { 8178, 8181 }, { 8182, 8184 }, { 8458, 8459 }, { 8462, 8464 }, { 8467, 8468 }, { 8495, 8496 }, { 8500, 8501 }, { 8505, 8506 }, { 8508, 8510 }, { 8518, 8522 }, { 8526, 8527 }, { 8580, 8581 }, { 11312, 11359 }, { 11361, 11362 }, { 11365, 11367 }, { 11368, 11369 }, { 11370, 11371 }, { 11372, 11373 }, { 11377, 11378 }, { 11379, 11381 }, { 11382, 11389 }, { 11393, 11394 }, { 11395, 11396 }, { 11397, 11398 }, { 11399, 11400 }, { 11401, 11402 }, { 11403, 11404 }, { 11405, 11406 }, { 11407, 11408 }, { 11409, 11410 }, { 11411, 11412 }, { 11413, 11414 }, { 11415, 11416 }, { 11417, 11418 }, { 11419, 11420 }, { 11421, 11422 }, { 11423, 11424 }, { 11425, 11426 }, { 11427, 11428 }, { 11429, 11430 }, { 11431, 11432 }, { 11433, 11434 }, { 11435, 11436 }, { 11437, 11438 }, { 11439, 11440 }, { 11441, 11442 }, { 11443, 11444 }, { 11445, 11446 }, { 11447, 11448 }, { 11449, 11450 }, { 11451, 11452 }, { 11453, 11454 }, { 11455, 11456 }, { 11457, 11458 }, { 11459, 11460 }, { 11461, 11462 }, { 11463, 11464 }, { 11465, 11466 }, { 11467, 11468 }, { 11469, 11470 }, { 11471, 11472 }, { 11473, 11474 }, { 11475, 11476 }, { 11477, 11478 }, { 11479, 11480 }, { 11481, 11482 }, { 11483, 11484 }, { 11485, 11486 }, { 11487, 11488 }, { 11489, 11490 }, { 11491, 11493 }, { 11500, 11501 }, { 11502, 11503 }, { 11520, 11558 }, { 42561, 42562 }, { 42563, 42564 }, { 42565, 42566 }, { 42567, 42568 }, { 42569, 42570 }, { 42571, 42572 }, { 42573, 42574 }, { 42575, 42576 }, { 42577, 42578 }, { 42579, 42580 }, { 42581, 42582 }, { 42583, 42584 }, { 42585, 42586 }, { 42587, 42588 }, { 42589, 42590 }, { 42591, 42592 }, { 42593, 42594 }, { 42595, 42596 }, { 42597, 42598 }, { 42599, 42600 }, { 42601, 42602 }, { 42603, 42604 }, { 42605, 42606 }, { 42625, 42626 }, { 42627, 42628 }, { 42629, 42630 }, { 42631, 42632 }, { 42633, 42634 }, { 42635, 42636 }, { 42637, 42638 }, { 42639, 42640 }, { 42641, 42642 }, { 42643, 42644 }, { 42645, 42646 }, { 42647, 42648 }, { 42787, 42788 }, { 42789, 42790 }, { 42791, 42792 }, { 42793, 42794 }, { 42795, 42796 }, { 42797, 42798 }, { 42799, 42802 }, { 42803, 42804 }, { 42805, 42806 }, { 42807, 42808 }, { 42809, 42810 }, { 42811, 42812 }, { 42813, 42814 }, { 42815, 42816 }, { 42817, 42818 }, { 42819, 42820 }, { 42821, 42822 }, { 42823, 42824 }, { 42825, 42826 }, { 42827, 42828 }, { 42829, 42830 }, { 42831, 42832 }, { 42833, 42834 }, { 42835, 42836 }, { 42837, 42838 }, { 42839, 42840 }, { 42841, 42842 }, { 42843, 42844 }, { 42845, 42846 }, { 42847, 42848 }, { 42849, 42850 }, { 42851, 42852 }, { 42853, 42854 }, { 42855, 42856 }, { 42857, 42858 }, { 42859, 42860 }, { 42861, 42862 }, { 42863, 42864 }, { 42865, 42873 }, { 42874, 42875 }, { 42876, 42877 }, { 42879, 42880 }, { 42881, 42882 }, { 42883, 42884 }, { 42885, 42886 }, { 42887, 42888 }, { 42892, 42893 }, { 42894, 42895 }, { 42897, 42898 }, { 42913, 42914 }, { 42915, 42916 }, { 42917, 42918 }, { 42919, 42920 }, { 42921, 42922 }, { 43002, 43003 }, { 64256, 64263 }, { 64275, 64280 }, { 65345, 65371 }, { 66600, 66640 }, { 119834, 119860 }, { 119886, 119893 }, { 119894, 119912 }, { 119938, 119964 }, { 119990, 119994 }, { 119995, 119996 }, { 119997, 120004 }, { 120005, 120016 }, { 120042, 120068 }, { 120094, 120120 }, { 120146, 120172 }, { 120198, 120224 }, { 120250, 120276 }, { 120302, 120328 }, { 120354, 120380 }, { 120406, 120432 }, { 120458, 120486 }, { 120514, 120539 }, { 120540, 120546 }, { 120572, 120597 }, { 120598, 120604 }, { 120630, 120655 }, { 120656, 120662 }, { 120688, 120713 }, { 120714, 120720 }, { 120746, 120771 }, { 120772, 120778 }, { 120779, 120780 }, { -1, -1 } };
-- 
2.43.0


From fa69349b79d68aadd737dcbfe9fa7d79522b1a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:53 +0000
Subject: [PATCH 13/61] fix: FIRST sets were incomplete for recursive
 nonterminals and for EBNF items that start with something optional

---
 TameParse/ContextFree/ebnf_items.cpp     | 34 +++++--------------
 TameParse/ContextFree/grammar.cpp        | 42 +++++++++++++++++++-----
 TameParse/ContextFree/grammar.h          |  9 +++++
 TameParse/ContextFree/standard_items.cpp | 34 ++-----------------
 4 files changed, 52 insertions(+), 67 deletions(-)

diff --git a/TameParse/ContextFree/ebnf_items.cpp b/TameParse/ContextFree/ebnf_items.cpp
index a062241..d334523 100644
--- a/TameParse/ContextFree/ebnf_items.cpp
+++ b/TameParse/ContextFree/ebnf_items.cpp
@@ -186,13 +186,8 @@ item_set ebnf_optional::first(const grammar& gram) const {
     // Get the rule
     const rule& r = *get_rule();
     
-    // Add items if the rule has a first item
-    if (r.items().size() > 0) {
-        const item_set& ruleItems = gram.first(*(r.items()[0]));
-        result.merge(ruleItems);
-    } else {
-        result.insert(the_empty_item);
-    }
+    // Add the first set for the rule
+    result.merge(gram.first_for_rule(r));
     
     return result;
 }
@@ -238,11 +233,8 @@ item_set ebnf_repeating::first(const grammar& gram) const {
     // Get the rule
     const rule& r = *get_rule();
     
-    // Add items if the rule has a first item
-    if (r.items().size() > 0) {
-        const item_set& ruleItems = gram.first(*(r.items()[0]));
-        result.merge(ruleItems);
-    }
+    // Add the first set for the rule
+    result.merge(gram.first_for_rule(r));
     
     return result;
 }
@@ -290,13 +282,8 @@ item_set ebnf_repeating_optional::first(const grammar& gram) const {
     // Get the rule
     const rule& r = *get_rule();
     
-    // Add items if the rule has a first item
-    if (r.items().size() > 0) {
-        const item_set& ruleItems = gram.first(*(r.items()[0]));
-        result.merge(ruleItems);
-    } else {
-        result.insert(the_empty_item);
-    }
+    // Add the first set for the rule
+    result.merge(gram.first_for_rule(r));
     
     return result;    
 }
@@ -354,13 +341,8 @@ item_set ebnf_alternate::first(const grammar& gram) const {
         // Get the rule
         const rule& r = **nextRule;
         
-        // Add items if the rule has a first item
-        if (r.items().size() > 0) {
-            const item_set& ruleItems = gram.first(*(r.items()[0]));
-            result.merge(ruleItems);
-        } else {
-            result.insert(the_empty_item);
-        }
+        // Add the first set for the rule
+        result.merge(gram.first_for_rule(r));
     }
     
     return result;
diff --git a/TameParse/ContextFree/grammar.cpp b/TameParse/ContextFree/grammar.cpp
index f4cbff7..f638b7c 100644
--- a/TameParse/ContextFree/grammar.cpp
+++ b/TameParse/ContextFree/grammar.cpp
@@ -41,7 +41,8 @@ static empty_item an_empty_item;
 static item_container an_empty_item_c(&an_empty_item, false);
 
 /// \brief Creates an empty grammar
-grammar::grammar() {
+grammar::grammar()
+: m_FirstSetsChanged(false) {
     m_EpsilonSet = new item_set(this);
     m_EpsilonSet->insert(an_empty_item_c);
 }
@@ -234,7 +235,7 @@ lr::lr1_item_set& grammar::cached_set_for_item(int id) const {
 /// so if the item is a nonterminal, then the set will contain all of the terminals that can begin that item.
 ///
 /// This will call first() on the specified item to retrieve the appropriate first set. While the call is in
-/// progress, the first set for the requested item will be set to be 
+/// progress, the first set for the requested item will be set to be whatever has been found for it so far.
 const item_set& grammar::first(const item_container& item) const {
     // Try to look up the first set for this item
     item_set_map::iterator found = m_CachedFirstSets.find(item);
@@ -242,14 +243,37 @@ const item_set& grammar::first(const item_container& item) const {
     // Return the value we found if it's already in the cache
     if (found != m_CachedFirstSets.end()) return found->second;
     
-    // Not found: create an empty item set so recursive calls to this method terminate
-    found = m_CachedFirstSets.insert(pair<item_container, item_set>(item, item_set(this))).first;
+    // If the set has already been evaluated during this pass, then use the value calculated so far (so recursive calls to this method terminate)
+    bool isOutermost = m_EvaluatedFirstSets.empty();
+    if (!m_EvaluatedFirstSets.insert(item_identifier_map::value_type(item, 0)).second) {
+        return m_PendingFirstSets.find(item)->second;
+    }
     
-    // Ask the item for its first set, and update the cache
-    found->second = item->first(*this);
+    // Create an empty item set if this item has not been evaluated before
+    found = m_PendingFirstSets.insert(item_set_map::value_type(item, item_set(this))).first;
     
-    // Return the newly added item (have to do another lookup as map doesn't have a replace operator)
-    return found->second;
+    for (;;) {
+        // Ask the item for its first set, and update the value calculated so far
+        if (found->second.merge(item->first(*this))) {
+            m_FirstSetsChanged = true;
+        }
+        
+        // First sets can depend on each other, so if any of them change then everything needs to be re-evaluated
+        if (!isOutermost) return found->second;
+        
+        m_EvaluatedFirstSets.clear();
+        if (!m_FirstSetsChanged) break;
+        
+        m_FirstSetsChanged = false;
+        m_EvaluatedFirstSets.insert(item_identifier_map::value_type(item, 0));
+    }
+    
+    // All of the sets are now complete: update the cache
+    m_CachedFirstSets.insert(m_PendingFirstSets.begin(), m_PendingFirstSets.end());
+    m_PendingFirstSets.clear();
+    
+    // Return the newly added item
+    return m_CachedFirstSets.find(item)->second;
 }
 
 /// \brief Computes the first set for the specified rule (or retrieves the cached version)
@@ -266,7 +290,7 @@ item_set grammar::first_for_rule(const rule& rule) const {
         result.erase(an_empty_item_c);
 
         // Add the items in the first set for this item
-        result.merge(first(*rule.items()[itemId]));
+        result.merge(first(rule.items()[itemId]));
 
         // If the result doesn't contain the empty item, then return it
         if (!result.contains(an_empty_item_c)) {
diff --git a/TameParse/ContextFree/grammar.h b/TameParse/ContextFree/grammar.h
index 627ad86..f1108a8 100644
--- a/TameParse/ContextFree/grammar.h
+++ b/TameParse/ContextFree/grammar.h
@@ -103,6 +103,15 @@ namespace contextfree {
         /// \brief Cached map of FIRST sets for this grammar
         mutable item_set_map m_CachedFirstSets;
         
+        /// \brief The values found so far for the first sets that are being calculated
+        mutable item_set_map m_PendingFirstSets;
+        
+        /// \brief The items that have been evaluated during the current pass through the pending first sets
+        mutable item_identifier_map m_EvaluatedFirstSets;
+        
+        /// \brief True if any of the pending first sets changed during the current pass
+        mutable bool m_FirstSetsChanged;
+        
         /// \brief Cached map of FOLLOW sets for this grammar
         mutable item_set_map m_CachedFollowSets;
 
diff --git a/TameParse/ContextFree/standard_items.cpp b/TameParse/ContextFree/standard_items.cpp
index a311b3e..2585b20 100644
--- a/TameParse/ContextFree/standard_items.cpp
+++ b/TameParse/ContextFree/standard_items.cpp
@@ -119,38 +119,8 @@ item_set nonterminal::first(const grammar& gram) const {
     
     // Merge in the first set for each of the initial symbols
     for (rule_list::const_iterator nextRule = rules.begin(); nextRule != rules.end(); ++nextRule) {
-        // Get the items for this rule
-        const item_list& ruleItems = (*nextRule)->items();
-        
-        // Add the empty item if this is an empty rule
-        if (ruleItems.size() == 0) {
-            result.insert(an_empty_item_c);
-            continue;
-        }
-        
-        // Get the first set for the first item in this rule
-        const item_set& ruleFirst = gram.first(ruleItems[0]);
-
-        // Insert into the result
-        result.merge(ruleFirst);
-
-        if (ruleFirst.contains(an_empty_item_c)) {
-            // If there's an empty item, then merge the first sets from the later parts of the rule
-            int pos;
-            for (pos = 1; pos < (int) ruleItems.size(); ++pos) {
-                // Remove the empty item from the current set
-                result.erase(an_empty_item);
-                
-                // Get the first set for the next item
-                const item_set& nextFirst = gram.first(*(ruleItems[pos]));
-                
-                // Merge it with the current set
-                result.merge(nextFirst);
-                
-                // Stop if there's no longer an empty item
-                if (!nextFirst.contains(an_empty_item_c)) break;
-            }
-        }
+        // Insert the first set for this rule into the result
+        result.merge(gram.first_for_rule(**nextRule));
     }
 
     return result;
-- 
2.43.0


From 6591f7763eb511f1bad72bd7f553284e21141e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:53 +0000
Subject: [PATCH 14/61] fix: FOLLOW sets left out the next repetition of a
 repeated item

---
 TameParse/ContextFree/grammar.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/TameParse/ContextFree/grammar.cpp b/TameParse/ContextFree/grammar.cpp
index f638b7c..c73f549 100644
--- a/TameParse/ContextFree/grammar.cpp
+++ b/TameParse/ContextFree/grammar.cpp
@@ -411,6 +411,11 @@ void grammar::fill_follow(const rule& rule, item_map<item_set>::type& dependenci
         // If this item is an EBNF rule, then we need to process each of its children
         const ebnf* ebnfItem = thisItem->cast_ebnf();
         if (ebnfItem) {
+            // Repeating items can be followed by another repetition
+            if (thisItem->type() == item::repeat || thisItem->type() == item::repeat_zero_or_one) {
+                followSet->second.merge(first_for_rule(*ebnfItem->get_rule()));
+            }
+            
             for (ebnf::rule_iterator subRule = ebnfItem->first_rule(); subRule != ebnfItem->last_rule(); ++subRule) {
                 fill_follow(**subRule, dependencies);
             }
-- 
2.43.0


From 7b9d07565a7e1ac4b261b3ff98aca031a0d2f457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:40 +0000
Subject: [PATCH 15/61] fix: conflicts between accepting and reducing at the
 end of the input were not reported

---
 TameParse/Lr/conflict.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/TameParse/Lr/conflict.cpp b/TameParse/Lr/conflict.cpp
index c765e77..23a9289 100644
--- a/TameParse/Lr/conflict.cpp
+++ b/TameParse/Lr/conflict.cpp
@@ -105,7 +105,6 @@ static void find_conflicts(const lalr_builder& builder, int stateId, conflict_li
         switch ((*nextAction)->type()) {
             case lr_action::act_goto:
             case lr_action::act_ignore:
-            case lr_action::act_accept:
                 ignore = true;
                 break;
                 
-- 
2.43.0


From 6aa6ffe35d7861591aae8fd1583d3cdc53f97d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:40 +0000
Subject: [PATCH 16/61] fix: reduce/reduce conflicts were reported as
 shift/reduce when the symbol could not be shifted yet

---
 TameParse/Lr/conflict.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/TameParse/Lr/conflict.cpp b/TameParse/Lr/conflict.cpp
index 23a9289..33b6ee8 100644
--- a/TameParse/Lr/conflict.cpp
+++ b/TameParse/Lr/conflict.cpp
@@ -154,9 +154,25 @@ static void find_conflicts(const lalr_builder& builder, int stateId, conflict_li
         // Describe the actions resulting in this conflict by going through the items in the closure of the state
         const grammar*    gram = &builder.gram();
         
+        // Symbols can be in the first set of an item without being shiftable yet (if something needs to be reduced to the empty string first)
+        bool canShift = false;
+        for (lr_action_set::const_iterator nextAction = nextItem->second.begin(); nextAction != nextItem->second.end(); ++nextAction) {
+            switch ((*nextAction)->type()) {
+                case lr_action::act_reduce:
+                case lr_action::act_weakreduce:
+                case lr_action::act_accept:
+                case lr_action::act_guard:
+                    break;
+                    
+                default:
+                    canShift = true;
+                    break;
+            }
+        }
+        
         // Iterate through the closure to get the items that can be shifted as part of this conflict
         for (lr1_item_set::const_iterator nextItem = closure.begin(); nextItem != closure.end(); ++nextItem) {
-            if (!(*nextItem)->at_end()) {
+            if (canShift && !(*nextItem)->at_end()) {
                 // This item will result in a shift: add it to the list if it can shift our item
                 const item_set& firstItems = gram->first((*nextItem)->rule()->items()[(*nextItem)->offset()]);
                 
-- 
2.43.0


From 50cf7792bf495f3e2f01c2b0a2414da4ddbc2193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:26 +0000
Subject: [PATCH 17/61] fix: copied parser stacks were not linked into the list
 of stacks, so a later copy used freed memory

The copy constructor of parser_stack::reference added itself at the head of
the list without pointing the old head back at it, so destroying references
in another order than they were made left dangling pointers in the list.
---
 TameParse/Lr/parser_stack.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TameParse/Lr/parser_stack.h b/TameParse/Lr/parser_stack.h
index 4e238fb..36ac470 100644
--- a/TameParse/Lr/parser_stack.h
+++ b/TameParse/Lr/parser_stack.h
@@ -264,6 +264,8 @@ namespace lr {
             m_Next = m_Stack->m_RootReference;
             m_Last = NULL;
             m_Stack->m_RootReference = this;
+            
+            if (m_Next) m_Next->m_Last = this;
         }
         
         /// \brief Assignment operator
-- 
2.43.0


From 20064ef60f7628f989289992ed4fa4296863920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:12 +0000
Subject: [PATCH 18/61] fix: guards inside guards used a freed lookahead token

check_guard kept a reference into the lookahead buffer while checking nested
guards, which can read more tokens and move the buffer.
---
 TameParse/Lr/parser_state.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TameParse/Lr/parser_state.h b/TameParse/Lr/parser_state.h
index 9d972c2..2c8f9c2 100644
--- a/TameParse/Lr/parser_state.h
+++ b/TameParse/Lr/parser_state.h
@@ -234,7 +234,8 @@ namespace lr {
         // Perform parser actions to decide if the guard is accepted or not
         for (;;) {
             // Fetch the lookahead
-            const lexeme_container& la = look(guardActions.offset());
+            // (This needs to be a copy: checking any guard within this one can move the lookahead buffer)
+            lexeme_container la = look(guardActions.offset());
             
             // Get the current state
             int state = guardActions.current_state(this);
-- 
2.43.0


From 6e258fca0359da588ccb5983987567a1f97d7d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:56 +0000
Subject: [PATCH 19/61] fix: a weak symbol was rejected where only its strong
 equivalent can follow

When a state reduces on a weak symbol, the actions of its strong equivalent
have to be available in case the reduction is not possible. The count of
remaining actions was compared with < 0, so they never were.
---
 TameParse/Lr/weak_symbols.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TameParse/Lr/weak_symbols.cpp b/TameParse/Lr/weak_symbols.cpp
index e6b0a85..e9cce11 100644
--- a/TameParse/Lr/weak_symbols.cpp
+++ b/TameParse/Lr/weak_symbols.cpp
@@ -283,7 +283,7 @@ void weak_symbols::rewrite_actions(int state, lr_action_set& actions, const lalr
                 map<int, int>::iterator found = weakSymbols.find(sym);
                 if (found != weakSymbols.end()) {
                     found->second--;
-                    if (found->second < 0) {
+                    if (found->second <= 0) {
                         weakSymbols.erase(found);
                     }
                 }
-- 
2.43.0


From b17de36ee44bc2d42022d71fe18da6653482f143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:30 +0000
Subject: [PATCH 20/61] fix: trying a reduction used the end of the wrong
 action list

can_reduce compared its position in the actions of the state it had reached
with the end of the actions of the state it started from, so it could read the
unused entry past the end of the list and take a token as acceptable that is not.
---
 TameParse/Lr/parser_state.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/TameParse/Lr/parser_state.h b/TameParse/Lr/parser_state.h
index 2c8f9c2..8b420f8 100644
--- a/TameParse/Lr/parser_state.h
+++ b/TameParse/Lr/parser_state.h
@@ -479,8 +479,7 @@ namespace lr {
                     // Update our 'fake state' to be whatever will happen due to this reduce
                     fake_reduce(act, stackPos, pushed, underlyingStack);
                     
-                    // Get the new state
-                    int state;
+                    // Get the new state (this also changes where the list of actions ends)
                     if (!pushed.empty()) {
                         // (This will always happen unless there's a bug in the parser tables)
                         state = pushed.top();
-- 
2.43.0


From d826c44f1c64539a7658bcf15afc017465e60fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:53 +0000
Subject: [PATCH 21/61] fix: the string reader lost the last character

good() was already false after the last character had been read, and a lexer
asks after reading, so text given as a string was lexed without its end.
---
 TameParse/Util/stringreader.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/TameParse/Util/stringreader.h b/TameParse/Util/stringreader.h
index 6480a2f..045d287 100644
--- a/TameParse/Util/stringreader.h
+++ b/TameParse/Util/stringreader.h
@@ -67,19 +67,24 @@ namespace util {
         
         /// \brief Position within the string
         size_t m_Pos;
+
+        /// \brief Set to true once something has tried to read past the end of the string
+        bool m_AtEnd;
         
     public:
         /// \brief Creates a new stringreader that references the supplied string
         basic_stringreader(const string_type& string)
         : m_SourceString(string)
-        , m_Pos(0) {
+        , m_Pos(0)
+        , m_AtEnd(false) {
         }
         
         /// \brief Returns the next character in the string (or 0 if all of the characters have been read)
         inline basic_stringreader& get(char_type& target) {
             if (m_Pos >= m_SourceString.size()) {
-                // At the end of the string
-                target = 0;
+                // At the end of the string: this read fails
+                target  = 0;
+                m_AtEnd = true;
             } else {
                 // Return the next character
                 target = m_SourceString[m_Pos++];
@@ -88,9 +93,9 @@ namespace util {
             return *this;
         }
         
-        /// \brief Returns true if there are more characters to read from the string
+        /// \brief Returns true unless a read has gone past the end of the string (as it does for a standard stream)
         inline bool good() const {
-            return m_Pos < m_SourceString.size();
+            return !m_AtEnd;
         }
     };
     
-- 
2.43.0


From c889818ba283f7c042e105fcd8bf9b1aa35bada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:17 +0000
Subject: [PATCH 22/61] fix: comments that end in **/ did not end there

A star in a comment was always taken together with the character after it, so
that /***/ and /** comment **/ went on to the end of a later comment.
---
 TameParse/Language/definition.tp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TameParse/Language/definition.tp b/TameParse/Language/definition.tp
index 7a7bc11..90cc2ad 100644
--- a/TameParse/Language/definition.tp
+++ b/TameParse/Language/definition.tp
@@ -38,7 +38,7 @@ language ParserLanguage {
 		newline			= /[\n\r]+/
 		whitespace		= /{whitespace}+/
 		comment			= /\/\/({anycharacter}*)/
-		c-comment		= /\/\*([^*]|\*[^\/])*\*\//
+		c-comment		= /\/\*([^*]|\*+[^*\/])*\*+\//
 	}
 	
 	/// Keywords
-- 
2.43.0


From 4d0d4bcfa6ee23349a49bd594e4ee78619346d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:51 +0000
Subject: [PATCH 23/61] fix: a string or regular expression that ends in an
 escaped backslash did not end there

The lexer took the last backslash and the closing quote as an escaped quote when
there was another quote further on, so that "\\\\" swallowed the text up to the next string.
---
 TameParse/Language/definition.tp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TameParse/Language/definition.tp b/TameParse/Language/definition.tp
index 90cc2ad..81330e2 100644
--- a/TameParse/Language/definition.tp
+++ b/TameParse/Language/definition.tp
@@ -15,9 +15,9 @@ language ParserLanguage {
 		anycharacter	= /[^\n\r]/
 
 		// Characters valid in regular expressions and strings
-		first-re-char 	= /[^\/\*]|(\\\/)/
-		regex-char		= /[^\/]|(\\\/)/
-		string-char     = /[^"]|(\\")/
+		first-re-char 	= /[^\/\*\\]|(\\.)/
+		regex-char		= /[^\/\\]|(\\.)/
+		string-char     = /[^"\\]|(\\.)/
 		
 		// Identifiers, regular expressions
 		identifier		= /{letter}{alphanumeric}*/
-- 
2.43.0


From c860c54144e7aea9233ca8ac9ef8a5fcace1ebf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:30 +0000
Subject: [PATCH 24/61] fix: copies of a definition file were incomplete

Copying left out the modifiers of lexer blocks, the type of nonterminal
definitions and EBNF items, and shared the items of precedence blocks, so that
they were deleted twice.
---
 TameParse/Language/ebnf_item.cpp              |  1 +
 TameParse/Language/grammar_block.cpp          |  3 ++
 TameParse/Language/lexer_block.cpp            |  5 +++
 TameParse/Language/nonterminal_definition.cpp |  1 +
 TameParse/Language/precedence_block.cpp       | 36 +++++++++++++++++++
 TameParse/Language/precedence_block.h         |  6 ++++
 TameParse/Language/toplevel_block.cpp         |  5 +++
 7 files changed, 57 insertions(+)

diff --git a/TameParse/Language/ebnf_item.cpp b/TameParse/Language/ebnf_item.cpp
index 4f6d0fa..9966092 100644
--- a/TameParse/Language/ebnf_item.cpp
+++ b/TameParse/Language/ebnf_item.cpp
@@ -72,6 +72,7 @@ ebnf_item& ebnf_item::operator=(const ebnf_item& copyFrom) {
     m_ChildItems.clear();
     
     // Copy the items from the source
+    m_Type              = copyFrom.m_Type;
     m_Identifier        = copyFrom.m_Identifier;
     m_SourceIdentifier  = copyFrom.m_SourceIdentifier;
     m_Attributes        = copyFrom.m_Attributes;
diff --git a/TameParse/Language/grammar_block.cpp b/TameParse/Language/grammar_block.cpp
index 98d1c91..7a9ea71 100644
--- a/TameParse/Language/grammar_block.cpp
+++ b/TameParse/Language/grammar_block.cpp
@@ -50,6 +50,9 @@ grammar_block::~grammar_block() {
 
 /// \brief Assigns the value of this grammar block
 grammar_block& grammar_block::operator=(const grammar_block& copyFrom) {
+    // Can't copy ourselves
+    if (&copyFrom == this) return *this;
+    
     // Delete the nonterminals
     for (nonterminal_definition_list::iterator toDelete = m_Nonterminals.begin(); toDelete != m_Nonterminals.end(); ++toDelete) {
         delete *toDelete;
diff --git a/TameParse/Language/lexer_block.cpp b/TameParse/Language/lexer_block.cpp
index 7db7aae..0710762 100644
--- a/TameParse/Language/lexer_block.cpp
+++ b/TameParse/Language/lexer_block.cpp
@@ -67,6 +67,11 @@ lexer_block& lexer_block::operator=(const lexer_block& copyFrom) {
         m_Lexemes.push_back(new lexeme_definition(**toCopy));
     }
     
+    // Copy the modifiers
+    m_Weak              = copyFrom.m_Weak;
+    m_CaseInsensitive   = copyFrom.m_CaseInsensitive;
+    m_CaseSensitive     = copyFrom.m_CaseSensitive;
+    
     set_start_pos(copyFrom.start_pos());
     set_end_pos(copyFrom.end_pos());
     
diff --git a/TameParse/Language/nonterminal_definition.cpp b/TameParse/Language/nonterminal_definition.cpp
index 122fd52..02d021e 100644
--- a/TameParse/Language/nonterminal_definition.cpp
+++ b/TameParse/Language/nonterminal_definition.cpp
@@ -66,6 +66,7 @@ nonterminal_definition& nonterminal_definition::operator=(const nonterminal_defi
         m_Productions.push_back(new production_definition(**toCopy));
     }
     
+    m_Type       = copyFrom.m_Type;
     m_Identifier = copyFrom.identifier();
     set_start_pos(copyFrom.start_pos());
     set_end_pos(copyFrom.end_pos());
diff --git a/TameParse/Language/precedence_block.cpp b/TameParse/Language/precedence_block.cpp
index f8785de..3090d9b 100644
--- a/TameParse/Language/precedence_block.cpp
+++ b/TameParse/Language/precedence_block.cpp
@@ -35,6 +35,42 @@ precedence_block::precedence_block(position& start, position& end)
 : block(start, end) {
 }
 
+/// \brief Creates a copy of a precedence definition
+precedence_block::precedence_block(const precedence_block& copyFrom) {
+    (*this) = copyFrom;
+}
+
+/// \brief Assigns the content of another precedence definition to this one
+precedence_block& precedence_block::operator=(const precedence_block& copyFrom) {
+    // Can't assign to ourselves
+    if (&copyFrom == this) return *this;
+
+    // Free up the existing items
+    for (list::iterator item = m_List.begin(); item != m_List.end(); ++item) {
+        for (ebnf_item_list::iterator ebnfItem = item->items.begin(); ebnfItem != item->items.end(); ++ebnfItem) {
+            delete *ebnfItem;
+        }
+    }
+    m_List.clear();
+
+    // Copy the items from the source (this block owns its items)
+    for (iterator toCopy = copyFrom.begin(); toCopy != copyFrom.end(); ++toCopy) {
+        item newItem;
+        newItem.assoc = toCopy->assoc;
+
+        for (ebnf_item_list::const_iterator ebnfItem = toCopy->items.begin(); ebnfItem != toCopy->items.end(); ++ebnfItem) {
+            newItem.items.push_back(new ebnf_item(**ebnfItem));
+        }
+
+        m_List.push_back(newItem);
+    }
+
+    set_start_pos(copyFrom.start_pos());
+    set_end_pos(copyFrom.end_pos());
+
+    return *this;
+}
+
 /// \brief Destructor
 precedence_block::~precedence_block() {
     // Free up the items
diff --git a/TameParse/Language/precedence_block.h b/TameParse/Language/precedence_block.h
index b6e8b97..e808568 100644
--- a/TameParse/Language/precedence_block.h
+++ b/TameParse/Language/precedence_block.h
@@ -76,6 +76,12 @@ namespace yy_language {
         /// \brief Creates a new precedence definition
         precedence_block(position& start, position& end);
         
+        /// \brief Creates a copy of a precedence definition
+        precedence_block(const precedence_block& copyFrom);
+        
+        /// \brief Assigns the content of another precedence definition to this one
+        precedence_block& operator=(const precedence_block& copyFrom);
+        
         /// \brief Destructor
         virtual ~precedence_block();
         
diff --git a/TameParse/Language/toplevel_block.cpp b/TameParse/Language/toplevel_block.cpp
index 5eaeb4c..84d8349 100644
--- a/TameParse/Language/toplevel_block.cpp
+++ b/TameParse/Language/toplevel_block.cpp
@@ -96,6 +96,11 @@ toplevel_block& toplevel_block::operator=(const toplevel_block& copyFrom) {
     if (m_LanguageBlock)    delete m_LanguageBlock;
     if (m_ParserBlock)      delete m_ParserBlock;
     if (m_TestBlock)        delete m_TestBlock;
+
+    m_ImportBlock   = NULL;
+    m_LanguageBlock = NULL;
+    m_ParserBlock   = NULL;
+    m_TestBlock     = NULL;
     
     // Copy
     set_start_pos(copyFrom.start_pos());
-- 
2.43.0


From cc85b108f7785937b0ece65ca6b5f1ecc980af05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:02 +0000
Subject: [PATCH 25/61] fix: 'conflict' could not be used as the name of an
 item

The manual says that there are no reserved words, but [conflict] was a syntax error.
---
 TameParse/Language/definition.tp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TameParse/Language/definition.tp b/TameParse/Language/definition.tp
index 81330e2..a78afde 100644
--- a/TameParse/Language/definition.tp
+++ b/TameParse/Language/definition.tp
@@ -178,9 +178,9 @@ language ParserLanguage {
 		<Semantic-Specification>	= '[' <Semantic-Item>[first-item] (',' <Semantic-Item>)*[more-items] ']'
 
 		<Semantic-Item>				= identifier[name]
-									| conflict '=' shift
-									| conflict '=' reduce
-									| conflict '=' weak reduce
+									| [=> conflict '='] conflict '=' shift
+									| [=> conflict '='] conflict '=' reduce
+									| [=> conflict '='] conflict '=' weak reduce
 
 		//
 		// Defining precedence
-- 
2.43.0


From b6210c613ab170e7c26eb723e2268637a4e1d59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:55 +0000
Subject: [PATCH 26/61] fix: weak symbols with several strong equivalents were
 not handled as any of them but the first

---
 TameParse/Lr/weak_symbols.cpp | 102 ++++++++++++++++++++--------------
 TameParse/Lr/weak_symbols.h   |   3 +
 2 files changed, 63 insertions(+), 42 deletions(-)

diff --git a/TameParse/Lr/weak_symbols.cpp b/TameParse/Lr/weak_symbols.cpp
index e9cce11..49b7f10 100644
--- a/TameParse/Lr/weak_symbols.cpp
+++ b/TameParse/Lr/weak_symbols.cpp
@@ -49,6 +49,7 @@ weak_symbols::weak_symbols(const item_map& map, const grammar* gram)
 weak_symbols::weak_symbols(const weak_symbols& copyFrom)
 : m_StrongToWeak(copyFrom.m_StrongToWeak)
 , m_WeakSymbols(copyFrom.m_WeakSymbols)
+, m_SplitSymbols(copyFrom.m_SplitSymbols)
 , m_Grammar(copyFrom.m_Grammar) {
 }
 
@@ -88,71 +89,70 @@ void weak_symbols::add_symbols(ndfa& dfa, const item_set& weak, terminal_diction
         weakIdentifiers.insert((*weakItem)->symbol());
     }
     
-    // Map of weak to strong symbols
+    // Map of weak to strong symbols (-1 if a weak symbol has no strong equivalent)
     map<int, int> weakToStrong;
     
+    // Symbols that were split off from a weak symbol, by the strong symbol that they are equivalent to
+    map<pair<int, int>, int> splitSymbols;
+    
     // Iterate through all of the DFA states
     typedef ndfa::accept_action_list accept_actions;
     for (int state = 0; state < dfa.count_states(); ++state) {
         // Get the accepting actions for this state
         const accept_actions& accept = dfa.actions_for_state(state);
         
-        // Ignore this state if it has no accepting actions
-        if (accept.empty()) continue;
-        
-        // Iterate through the accepting action list and determine the 'strongest' symbol
-        int         strongest   = 0x7fffffff;
-        set<int>    usedWeak;
+        // Iterate through the accepting action list and find the actions with the highest priority among the weak and the
+        // strong symbols. This is the same priority that is used by the lexer.
+        const accept_action* weakAction     = NULL;
+        const accept_action* strongAction   = NULL;
         
         for (accept_actions::const_iterator action = accept.begin(); action != accept.end(); ++action) {
-            int sym = (*action)->symbol();
+            bool                    isWeak  = weakIdentifiers.find((*action)->symbol()) != weakIdentifiers.end();
+            const accept_action*&   highest = isWeak?weakAction:strongAction;
             
-            // Ignore weak symbols
-            if (weakIdentifiers.find(sym) != weakIdentifiers.end()) {
-                usedWeak.insert(sym);
-                continue;
-            }
-            
-            // Lower symbol IDs are stronger than weaker ones, and the strongest ID is the one that will be accepted
-            // (Same as is defined in the ordering of accept_action)
-            if (sym < strongest) {
-                strongest = sym;
+            if (!highest || *highest < **action) {
+                highest = *action;
             }
         }
         
-        // If no 'strongest' symbol was found, then all the symbols here are weak, and we can ignore this state
-        if (strongest == 0x7fffffff)    continue;
+        // Ignore this state if no weak symbols were found
+        // (Other weak symbols in this state are never produced, so they do not need a strong equivalent here)
+        if (!weakAction) continue;
         
-        // Also can ignore the state if no weak symbols were found
-        if (usedWeak.empty())           continue;
+        int weakSymbol      = weakAction->symbol();
+        int strongSymbol    = strongAction?strongAction->symbol():-1;
         
-        // Map the weak symbols we found to this identifier
-        for (set<int>::iterator weakSymbol = usedWeak.begin(); weakSymbol != usedWeak.end(); ++weakSymbol) {
-            if (weakToStrong.find(*weakSymbol) == weakToStrong.end()) {
-                // This is the first conflict between the two symbols. Just mark out the mapping.
-                weakToStrong[*weakSymbol] = strongest;
-            } else if (weakToStrong[*weakSymbol] != strongest) {
-                // The weak symbol is used somewhere else with a different meaning
-                // NOTE: this isn't ideal, as if there's an identical conflict somewhere else we generate more and more symbols for each conflicting
-                // state, while we only need one new symbol for each (weak, strong) pair.
-                
-                // Split the weak symbol so that we have two different meanings
-                int splitSymbolId = terminals.split(*weakSymbol);
-                
-                // Change the accepting action for this state so that it accepts the new symbol
-                dfa.clear_accept(state);
-                dfa.accept(state, accept_action(splitSymbolId));
+        if (weakToStrong.find(weakSymbol) == weakToStrong.end()) {
+            // This is the first place where this symbol is accepted. Just mark out the mapping.
+            weakToStrong[weakSymbol] = strongSymbol;
+        } else if (weakToStrong[weakSymbol] != strongSymbol) {
+            // The weak symbol is used somewhere else with a different meaning
+            // Split the weak symbol so that we have two different meanings
+            pair<int, int>                      meaning(weakSymbol, strongSymbol);
+            map<pair<int, int>, int>::iterator  split = splitSymbols.find(meaning);
+
+            if (split == splitSymbols.end()) {
+                split = splitSymbols.insert(make_pair(meaning, terminals.split(weakSymbol))).first;
                 
-                // Map this in the weakToStrong table
-                weakToStrong[splitSymbolId] = strongest;
+                // Anything that can be done with the weak symbol can also be done with the symbol that was split off from it
+                m_SplitSymbols[weakSymbol].insert(split->second);
+                m_WeakSymbols.insert(item_container(new terminal(split->second), true));
             }
+            
+            // Change the accepting action for this state so that it accepts the new symbol
+            dfa.clear_accept(state);
+            dfa.accept(state, accept_action(split->second));
+            
+            // Map this in the weakToStrong table
+            weakToStrong[split->second] = strongSymbol;
         }
     }
     
-    // TODO: if a weak symbol maps to several strong identifiers, it needs to be split into several symbols
-    
     // Fill in the strong map for each weak symbol
     for (map<int, int>::iterator weakStrong = weakToStrong.begin(); weakStrong != weakToStrong.end(); ++weakStrong) {
+        // Nothing to do if there is no strong equivalent
+        if (weakStrong->second < 0) continue;
+
         // Use the first strong symbol for this weak symbol
         item_container strongTerm(new terminal(weakStrong->second), true);
         item_container weakTerm(new terminal(weakStrong->first), true);
@@ -190,6 +190,24 @@ void weak_symbols::add_symbols(ndfa& dfa, const item_set& weak, terminal_diction
 /// there is a potential clash, then it's likely that the parser will be incorrect as weak reduce actions for
 /// the weak symbol will not be considered in many cases.
 void weak_symbols::rewrite_actions(int state, lr_action_set& actions, const lalr_builder& builder) const {
+    // Actions for a weak symbol that was split are repeated for the symbols that were split off from it
+    if (!m_SplitSymbols.empty()) {
+        lr_action_set splitActions(actions);
+
+        for (lr_action_set::const_iterator act = actions.begin(); act != actions.end(); ++act) {
+            if ((*act)->item()->type() != item::terminal) continue;
+
+            map<int, set<int> >::const_iterator split = m_SplitSymbols.find((*act)->item()->symbol());
+            if (split == m_SplitSymbols.end()) continue;
+
+            for (set<int>::const_iterator splitSymbol = split->second.begin(); splitSymbol != split->second.end(); ++splitSymbol) {
+                splitActions.insert(lr_action_container(new lr_action(**act, item_container(new terminal(*splitSymbol), true)), true));
+            }
+        }
+
+        actions = splitActions;
+    }
+
     // Determine if there are any actions referring to strong symbols in this action set
     bool haveStrong = false;
     
diff --git a/TameParse/Lr/weak_symbols.h b/TameParse/Lr/weak_symbols.h
index a436dd8..92ef24f 100644
--- a/TameParse/Lr/weak_symbols.h
+++ b/TameParse/Lr/weak_symbols.h
@@ -72,6 +72,9 @@ namespace lr {
         /// so it's necessary to maintain a separate list of the weak symbols.
         contextfree::item_set m_WeakSymbols;
 
+        /// \brief Maps weak symbols to the symbols that were split off from them because their strong equivalent is different
+        std::map<int, std::set<int> > m_SplitSymbols;
+
         /// \brief The grammar that the symbols are from
         const contextfree::grammar* m_Grammar;
         
-- 
2.43.0


From f4013089157bd33c20909428b1ad7a07c4c2f3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:55 +0000
Subject: [PATCH 27/61] fix: weak symbols equivalent to an ignored symbol were
 rejected instead of ignored

---
 TameParse/Compiler/lr_parser_stage.cpp | 6 ++++++
 TameParse/Lr/ignored_symbols.cpp       | 1 +
 2 files changed, 7 insertions(+)

diff --git a/TameParse/Compiler/lr_parser_stage.cpp b/TameParse/Compiler/lr_parser_stage.cpp
index ac3aba5..781d512 100644
--- a/TameParse/Compiler/lr_parser_stage.cpp
+++ b/TameParse/Compiler/lr_parser_stage.cpp
@@ -310,6 +310,12 @@ void lr_parser_stage::compile() {
     for (set<int>::const_iterator ignoredTerminalId = m_Language->ignored_symbols()->begin(); ignoredTerminalId != m_Language->ignored_symbols()->end(); ++ignoredTerminalId) {
         item_container newTerm(new terminal(*ignoredTerminalId), true);
         ignored->add_item(newTerm);
+
+        // Weak symbols that are equivalent to an ignored symbol are ignored too, in the places where they are not used
+        const item_set& weakEquivalents = m_LexerCompiler->weak_symbols()->weak_for_strong(newTerm);
+        for (item_set::const_iterator weakItem = weakEquivalents.begin(); weakItem != weakEquivalents.end(); ++weakItem) {
+            ignored->add_item(*weakItem);
+        }
     }
 
     // Add the initial states to the LALR builder
diff --git a/TameParse/Lr/ignored_symbols.cpp b/TameParse/Lr/ignored_symbols.cpp
index 7d368ab..1641676 100644
--- a/TameParse/Lr/ignored_symbols.cpp
+++ b/TameParse/Lr/ignored_symbols.cpp
@@ -80,6 +80,7 @@ void ignored_symbols::rewrite_actions(int state, lr_action_set& actions, const l
                 break;
                 
             case lr_action::act_shift:
+            case lr_action::act_shiftstrong:
                 // Shifts always get copied through
                 newActions.insert(*action);
                 
-- 
2.43.0


From 3d7164ac375572aab97dcec8eb499e987551dfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:55 +0000
Subject: [PATCH 28/61] fix: a language that inherits from itself overflowed
 the stack

---
 TameParse/Compiler/language_stage.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/TameParse/Compiler/language_stage.cpp b/TameParse/Compiler/language_stage.cpp
index f5e445c..af2c016 100644
--- a/TameParse/Compiler/language_stage.cpp
+++ b/TameParse/Compiler/language_stage.cpp
@@ -95,14 +95,27 @@ void language_stage::compile() {
         const wstring& inheritFrom = m_Language->inherits().front();
 
         // Fetch the language from the importer
-        // TODO: inheritance loops should produce an error (other than a stack overflow)
         const language_block* inheritBlock = m_Import->language_with_name(inheritFrom);
 
+        // Follow the languages that this one inherits from until we find one that does not inherit or that we've seen before
+        set<wstring>            visited;
+        const language_block*   ancestor = inheritBlock;
+
+        visited.insert(m_Language->identifier());
+        while (ancestor && visited.insert(ancestor->identifier()).second) {
+            ancestor = ancestor->inherits().empty()?NULL:m_Import->language_with_name(ancestor->inherits().front());
+        }
+
         // Report an error if the language is not defined
         if (!inheritBlock) {
             wstringstream msg;
             msg << L"Unable to find language '" << inheritFrom << "'";
             cons().report_error(error(error::sev_error, filename(), L"CANT_FIND_LANGUAGE", msg.str(), m_Language->start_pos()));
+        } else if (ancestor) {
+            // It's an error for a language to inherit from itself
+            wstringstream msg;
+            msg << L"Language '" << m_Language->identifier() << L"' cannot inherit from '" << inheritFrom << L"' as that language inherits from itself";
+            cons().report_error(error(error::sev_error, filename(), L"INHERITANCE_LOOP", msg.str(), m_Language->start_pos()));
         } else {
             // Compile the language this inherits from
             console_container consCopy(cons_container());
-- 
2.43.0


From 1fa127ffbc53d5ad7554dca3ff6768df3576772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:55 +0000
Subject: [PATCH 29/61] fix: a replaced symbol kept the properties of the block
 it was first defined in

---
 TameParse/Compiler/language_stage.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/TameParse/Compiler/language_stage.cpp b/TameParse/Compiler/language_stage.cpp
index af2c016..20ef0ec 100644
--- a/TameParse/Compiler/language_stage.cpp
+++ b/TameParse/Compiler/language_stage.cpp
@@ -286,6 +286,10 @@ void language_stage::compile() {
                             } else {
                                 // Clear the existing symbol
                                 m_TerminalDefinition.erase(symId);
+                                m_UnusedSymbols.erase(symId);
+                                m_IgnoredSymbols.erase(symId);
+                                m_UsedIgnoredSymbols.erase(symId);
+                                m_WeakSymbols.erase(symId);
                                 m_Lexer.remove_definition((*lexerItem)->identifier());
                             }
                         }
-- 
2.43.0


From 4f25afc427214986c761d94e38541bae0fc808e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:55 +0000
Subject: [PATCH 30/61] fix: undefined nonterminals were reported in the wrong
 file

---
 TameParse/Compiler/language_stage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TameParse/Compiler/language_stage.cpp b/TameParse/Compiler/language_stage.cpp
index 20ef0ec..3d3fcca 100644
--- a/TameParse/Compiler/language_stage.cpp
+++ b/TameParse/Compiler/language_stage.cpp
@@ -511,12 +511,13 @@ void language_stage::compile() {
             // Find the place where this nonterminal was first used
             block*          firstUsage  = m_FirstNonterminalUsage[nonterminalId].first;
             position        usagePos    = firstUsage?firstUsage->start_pos():position(-1, -1, -1);
+            const wstring&  usageFile   = firstUsage?*m_FirstNonterminalUsage[nonterminalId].second:filename();
             
             // Generate the message
             wstringstream   msg;
             msg << L"Undefined nonterminal: " << formatter::to_string(*ntItem, m_Grammar, m_Terminals);
             
-            cons().report_error(error(error::sev_error, filename(), L"UNDEFINED_NONTERMINAL", msg.str(), usagePos));
+            cons().report_error(error(error::sev_error, usageFile, L"UNDEFINED_NONTERMINAL", msg.str(), usagePos));
         }
     }
 
-- 
2.43.0


From cc98ef0941ba52db14e75af9bca65deb90d2536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:55 +0000
Subject: [PATCH 31/61] fix: the place where an implicit symbol is defined was
 not recorded

---
 TameParse/Compiler/language_stage.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/TameParse/Compiler/language_stage.cpp b/TameParse/Compiler/language_stage.cpp
index 3d3fcca..861e1c7 100644
--- a/TameParse/Compiler/language_stage.cpp
+++ b/TameParse/Compiler/language_stage.cpp
@@ -633,6 +633,9 @@ int language_stage::add_ebnf_lexer_items(yy_language::ebnf_item* item) {
             m_Lexer.add_definition(item->identifier(), lexer_item(lexer_item::regex, item->identifier(), false, false, symId, language_unit::unit_keywords_definition, true, ourFilename, item->start_pos()));
             m_UnusedSymbols.insert(symId);
 
+            // Store where it is defined
+            m_TerminalDefinition[symId] = pair<block*, wstring*>(item, ourFilename);
+
             // Set the type of this symbol
             m_TypeForTerminal[symId] = language_unit::unit_keywords_definition;
 
@@ -659,6 +662,9 @@ int language_stage::add_ebnf_lexer_items(yy_language::ebnf_item* item) {
             m_Lexer.add_definition(item->identifier(), lexer_item(lexer_item::literal, dequote, false, false, symId, language_unit::unit_keywords_definition, true, ourFilename, item->start_pos()));
             m_UnusedSymbols.insert(symId);
             
+            // Store where it is defined
+            m_TerminalDefinition[symId] = pair<block*, wstring*>(item, ourFilename);
+            
             // Set the type of this symbol
             m_TypeForTerminal[symId] = language_unit::unit_keywords_definition;
             
-- 
2.43.0


From b5e6ca7a224581391713d4f06b359735d5fbca18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:05 +0000
Subject: [PATCH 32/61] fix: generated parsers did not compile if two rules
 differed only in their guards

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index 46631ac..ec71501 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -917,6 +917,10 @@ void output_cplusplus::header_ast_forward_declarations() {
                     << "        virtual dfa::position final_pos() const;\n"
                     << "    };\n";
 
+    // Constructors are distinguished by the rule they are for (rules that differ only in their guards have the same items)
+    *m_HeaderFile   << "\n"
+                    << "    template<int rule> class for_rule { };\n";
+
     // Create a class that will represent a terminal item
     *m_HeaderFile   << "\n"
                     << "    class terminal : public syntax_node {\n"
@@ -968,6 +972,20 @@ void output_cplusplus::header_ast_forward_declarations() {
     }
 }
 
+/// \brief Writes out the parameter that says which rule a constructor is for
+///
+/// Rules that differ only in their guards have the same items, so the items aren't enough to tell their constructors
+/// apart. The classes for the content of EBNF closures only ever have a single constructor.
+static string rule_parameter(const item_container& nonterminal, int ruleId, const char* suffix = "") {
+    if (nonterminal->type() == item::repeat || nonterminal->type() == item::repeat_zero_or_one) {
+        return "";
+    }
+
+    stringstream res;
+    res << "for_rule<" << ruleId << ">" << suffix << ", ";
+    return res.str();
+}
+
 /// \brief Writes out the class declarations for the classes that represent AST items
 void output_cplusplus::header_ast_class_declarations() {
     // Write out the definitions for the terminals
@@ -1102,7 +1120,7 @@ void output_cplusplus::header_ast_class_declarations() {
             // Declare a constructor for this rule
             if (declareConstructor) {
                 *m_HeaderFile   << "\n    public:\n"
-                                << "        " << ntContentClass << "(";
+                                << "        " << ntContentClass << "(" << rule_parameter(nonterm->item, ruleIdentifier);
                 
                 // Iterate through the items in this rule
                 bool    first = true;
@@ -1237,7 +1255,7 @@ void output_cplusplus::source_ast_class_constructors() {
 
             // Write out the declaration for this constructor
             *m_SourceFile << "\n// Rule " << ruleDefn->first << "\n";
-            *m_SourceFile << get_identifier(m_ClassName, false) << "::" << ntName << "::" << ntName << "(";
+            *m_SourceFile << get_identifier(m_ClassName, false) << "::" << ntName << "::" << ntName << "(" << rule_parameter(nonterm->item, ruleDefn->first);
 
             // Generate the parameters for the constructor by iterating through the items in the rule
             bool    first = true;
@@ -1578,7 +1596,7 @@ void output_cplusplus::source_reduce_actions() {
                     *m_SourceFile << "        util::syntax_ptr<class " << ntContentClass << "> content(new " << ntContentClass << "(";
                 } else {
                     // For non-repeating items, just return the item directly
-                    *m_SourceFile << "        return node(new " << ntContentClass << "(";
+                    *m_SourceFile << "        return node(new " << ntContentClass << "(" << rule_parameter(nonterm->item, ruleDefn->first, "()");
                 }
 
                 // Generate the constructor parameters
-- 
2.43.0


From bb8264bdb62c25839c1c79060fc029230cab6875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:03 +0000
Subject: [PATCH 33/61] fix: generated parsers did not compile if items with
 different types had the same name

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 73 +++++++++++++++++--
 TameParse/Compiler/OutputStages/cplusplus.h   |  6 ++
 2 files changed, 71 insertions(+), 8 deletions(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index ec71501..f1845bf 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -211,6 +211,65 @@ std::string output_cplusplus::class_name_for_item(const contextfree::item_contai
     }
 }
 
+/// \brief Retrieves the name of the variable for an item in a rule
+///
+/// Items in different rules of a nonterminal share a variable if they have the same name and type. Otherwise, every
+/// item has a variable of its own, so items whose names are different but map to the same identifier are numbered.
+std::string output_cplusplus::variable_name(int nonterminalId, int ruleId, size_t index) {
+    map<int, vector<string> >& names = m_VariableNames[nonterminalId];
+
+    // Choose the names for this nonterminal the first time that this is called
+    if (names.empty()) {
+        const ast_nonterminal& ntDefn = get_ast_nonterminal(nonterminalId);
+
+        // Variables can't have the same name as one of the classes
+        set<string> typeNames;
+        for (map<int, string>::const_iterator className = m_ClassNameForItem.begin(); className != m_ClassNameForItem.end(); ++className) {
+            typeNames.insert(className->second + s_TypeSuffix);
+        }
+
+        // The types of the variables in this nonterminal
+        map<string, string> variableTypes;
+
+        for (ast_nonterminal_rules::const_iterator ruleDefn = ntDefn.rules.begin(); ruleDefn != ntDefn.rules.end(); ++ruleDefn) {
+            vector<string>& ruleNames = names[ruleDefn->first];
+            set<string>     usedNames;
+
+            for (ast_rule_item_list::const_iterator ruleItem = ruleDefn->second.begin(); ruleItem != ruleDefn->second.end(); ++ruleItem) {
+                // Guards and EBNF repetitions have no variables
+                if (ruleItem->item->type() == item::guard || ruleItem->isEbnfRepetition) {
+                    ruleNames.push_back("");
+                    continue;
+                }
+
+                string baseName = get_identifier(ruleItem->uniqueName, false);
+                string typeName = class_name_for_item(ruleItem->item);
+                string varName  = baseName;
+
+                for (int variant = 2;; ++variant) {
+                    map<string, string>::const_iterator declared = variableTypes.find(varName);
+
+                    if (usedNames.find(varName) == usedNames.end()
+                        && typeNames.find(varName) == typeNames.end()
+                        && (declared == variableTypes.end() || declared->second == typeName)) {
+                        break;
+                    }
+
+                    stringstream variantName;
+                    variantName << baseName << "_" << variant;
+                    varName = variantName.str();
+                }
+
+                usedNames.insert(varName);
+                variableTypes[varName] = typeName;
+                ruleNames.push_back(varName);
+            }
+        }
+    }
+
+    return names[ruleId][index];
+}
+
 /// \brief Returns true if the specified name should be considered 'valid'
 bool output_cplusplus::name_is_valid(const std::wstring& name) {
     // Empty names are invalid
@@ -1074,7 +1133,7 @@ void output_cplusplus::header_ast_class_declarations() {
                 validItems = true;
 
                 // Add a variable definition for this rule item if this nonterminal doesn't already have one
-                string varName = get_identifier(ruleItem->uniqueName, false);
+                string varName = variable_name(nonterm->identifier, ruleIdentifier, ruleItem - ruleDefn->second.begin());
 
                 if (definedVariables.find(varName) == definedVariables.end()) {
                     // Get the type name for this variable
@@ -1132,8 +1191,7 @@ void output_cplusplus::header_ast_class_declarations() {
                     // Ignore repetitions
                     if (ruleItem->isEbnfRepetition) continue;
 
-                    // Get the variable name and type for this item 
-                    string varName  = get_identifier(ruleItem->uniqueName, false);
+                    // Get the type for this item 
                     string typeName = class_name_for_item(ruleItem->item);
 
                     // Add to the list of parameters
@@ -1267,8 +1325,7 @@ void output_cplusplus::source_ast_class_constructors() {
                 // Ignore repetitions
                 if (ruleItem->isEbnfRepetition) continue;
 
-                // Get the variable name and type for this item 
-                string varName  = get_identifier(ruleItem->uniqueName, false);
+                // Get the type for this item 
                 string typeName = class_name_for_item(ruleItem->item);
 
                 // Add to the list of parameters
@@ -1309,7 +1366,7 @@ void output_cplusplus::source_ast_class_constructors() {
                 if (ruleItem->isEbnfRepetition) continue;
 
                 // Get the variable name and type for this item 
-                string varName  = get_identifier(ruleItem->uniqueName, false);
+                string varName  = variable_name(nonterm->identifier, ruleDefn->first, ruleItem - ruleDefn->second.begin());
                 string typeName = class_name_for_item(ruleItem->item);
 
                 // Declare as a reference to the syntax pointer
@@ -1378,7 +1435,7 @@ void output_cplusplus::source_ast_position_functions() {
 
                 // This item has a variable, so we can return its first position as the position of this item
                 foundValid = true;
-                *m_SourceFile << "        return " << get_identifier(ruleItem->uniqueName, false) << "->pos();\n";
+                *m_SourceFile << "        return " << variable_name(nonterm->identifier, ruleDefn->first, ruleItem - ruleDefn->second.begin()) << "->pos();\n";
 
                 // Only write out a single position item
                 break;
@@ -1420,7 +1477,7 @@ void output_cplusplus::source_ast_position_functions() {
 
                 // This item has a variable, so we can return its final position as the position of this item
                 foundValid = true;
-                *m_SourceFile << "        return " << get_identifier(ruleItem->uniqueName, false) << "->final_pos();\n";
+                *m_SourceFile << "        return " << variable_name(nonterm->identifier, ruleDefn->first, ruleDefn->second.rend() - ruleItem - 1) << "->final_pos();\n";
 
                 // Only write out a single position item
                 break;
diff --git a/TameParse/Compiler/OutputStages/cplusplus.h b/TameParse/Compiler/OutputStages/cplusplus.h
index 7908d0d..951c257 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.h
+++ b/TameParse/Compiler/OutputStages/cplusplus.h
@@ -62,6 +62,9 @@ namespace compiler {
         /// \brief The used class (and other identifier) names for the class (which should not be re-used)
         std::set<std::string> m_UsedClassNames;
 
+        /// \brief Maps nonterminal and rule identifiers to the names of the variables for the items in the rule
+        std::map<int, std::map<int, std::vector<std::string> > > m_VariableNames;
+
     public:
         /// \brief Creates a new output stage
         output_cplusplus(console_container& console, const std::wstring& filename, lexer_stage* lexer, language_stage* language, lr_parser_stage* parser, const std::wstring& filenamePrefix, const std::wstring& className, const std::wstring& namespaceName);
@@ -76,6 +79,9 @@ namespace compiler {
         /// \brief Retrieves or assigns a class name for an item with the specified ID
         virtual std::string class_name_for_item(const contextfree::item_container& item);
 
+        /// \brief Retrieves the name of the variable for an item in a rule
+        std::string variable_name(int nonterminalId, int ruleId, size_t index);
+
         /// \brief Writes out a header to the specified file
         virtual void write_header(const std::wstring& filename, std::ostream* target);
 
-- 
2.43.0


From 1eff08993d906f0486b8fa84c406b06ccc5ae62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:03 +0000
Subject: [PATCH 34/61] fix: empty lists in generated parsers had no position

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index f1845bf..2de8085 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -1697,7 +1697,9 @@ void output_cplusplus::source_reduce_actions() {
                 // The constructor is delcared for the item that contains the repetition
                 if (!hasConstructor && nonterm->item->type() == item::repeat_zero_or_one) {
                     // This is the empty rule in a zero-or-more repetition: create an empty item
-                    *m_SourceFile << "        return node(new " << ntName << "());\n";
+                    *m_SourceFile << "        util::syntax_ptr<class " << ntName << "> list(new " << ntName << "());\n";
+                    *m_SourceFile << "        const_cast<" << ntName << "*>(list.item())->set_position(lookaheadPosition);\n";
+                    *m_SourceFile << "        return list.cast_to<syntax_node>();\n";
                 } else {
                     // Get the node where the definition is being built up
                     *m_SourceFile << "        util::syntax_ptr<class " << ntName << "> list(";
-- 
2.43.0


From 9e088e94956c3995692a2dc8aaa3768e1cb4f007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:03 +0000
Subject: [PATCH 35/61] fix: nested lists in generated parsers had the wrong
 position

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index 2de8085..9b6a1ae 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -1429,7 +1429,7 @@ void output_cplusplus::source_ast_position_functions() {
                 if (ruleItem->item->type() == item::guard) continue;
 
                 // Neither does the 'repeat' item of a * or + closure
-                if (repeatingItem && ruleItem->item->type() == nonterm->item->type() && ruleItem->item->symbol() == nonterm->item->symbol()) {
+                if (ruleItem->isEbnfRepetition) {
                     continue;
                 }
 
@@ -1471,7 +1471,7 @@ void output_cplusplus::source_ast_position_functions() {
                 if (ruleItem->item->type() == item::guard) continue;
 
                 // Neither does the 'repeat' item of a * or + closure
-                if (repeatingItem && ruleItem->item->type() == nonterm->item->type() && ruleItem->item->symbol() == nonterm->item->symbol()) {
+                if (ruleItem->isEbnfRepetition) {
                     continue;
                 }
 
-- 
2.43.0


From 84a4ae874d5a368ec7a5ce2af3de9868d01189da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:03 +0000
Subject: [PATCH 36/61] fix: generated parsers did not compile if two rules of
 a nonterminal had no items

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index 9b6a1ae..8d9cdea 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -1150,9 +1150,8 @@ void output_cplusplus::header_ast_class_declarations() {
             }
 
             // If there are no valid items then we need to declare a position field
-            if (!validItems) {
-                // Presumably there's only one of these
-                *m_HeaderFile << "        dfa::position m_Position;";
+            if (!validItems && definedVariables.insert("m_Position").second) {
+                *m_HeaderFile << "        dfa::position m_Position;\n";
             }
 
             // Declare the constructor for this rule if necessary
-- 
2.43.0


From b0f79202245ee876c1c9c022a68d814254f97bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:03 +0000
Subject: [PATCH 37/61] fix: generated parsers did not compile if a symbol had
 the name chosen for another one

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index 8d9cdea..3898f28 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -394,6 +394,7 @@ void output_cplusplus::header_terminal_symbols() {
         }
 
         ++terminalSymbolCount[shortName];
+        if (ourName.str() != shortName) ++terminalSymbolCount[ourName.str()];
 
         // Output a constant for this terminal
         *m_HeaderFile << "        static const int " << ourName.str() << " = " << term->identifier << ";\n";
@@ -440,6 +441,7 @@ void output_cplusplus::header_nonterminal_symbols() {
         }
         
         ++nonterminalSymbolCount[shortName];
+        if (ourName.str() != shortName) ++nonterminalSymbolCount[ourName.str()];
         
         // Output a constant for this terminal
         *m_HeaderFile << "        static const int " << ourName.str() << " = " << nonterm->identifier << ";\n";
-- 
2.43.0


From d654b5ba7ee5f38bd40de432d75d181580419bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:35 +0000
Subject: [PATCH 38/61] fix: generated parsers did not compile if two start
 symbols had the same identifier

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index 3898f28..9cde647 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -937,11 +937,20 @@ void output_cplusplus::header_start_symbols() {
     const vector<wstring>& startSymbols = get_start_symbols();
 
     // Write out functions for generating the initial state for each start symbol
-    int initialState = 0;
+    int         initialState = 0;
+    set<string> usedNames;
     for (vector<wstring>::const_iterator startSymbol = startSymbols.begin(); startSymbol != startSymbols.end(); ++startSymbol) {
         // Assign a name to this symbol
         // TODO: avoid clashes with defined symbols called 'create_X'
-        string startName = get_identifier(*startSymbol, true);
+        string baseName  = get_identifier(*startSymbol, true);
+        string startName = baseName;
+
+        // Different symbols can have the same identifier: the functions for the later ones are numbered
+        for (int variant = 2; !usedNames.insert(startName).second; ++variant) {
+            stringstream variantName;
+            variantName << baseName << "_" << variant;
+            startName = variantName.str();
+        }
 
         // Define a function 
         *m_HeaderFile   << "    inline static state* create_" << startName << "(parser_actions* actions) {\n"
-- 
2.43.0


From 5190f47f63e0adea81bfb091a215be99b9bb20a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:17 +0000
Subject: [PATCH 39/61] fix: text given to --test was cut off at the first
 character that is not ASCII

---
 parsetool/main.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parsetool/main.cpp b/parsetool/main.cpp
index 00eafe5..006611e 100644
--- a/parsetool/main.cpp
+++ b/parsetool/main.cpp
@@ -321,7 +321,8 @@ int main (int argc, const char * argv[])
             ast_parser parser(*lrParserStage.get_tables());
             
             // Create the parser
-            lexeme_stream* stdinStream      = lexerStage.get_lexer()->create_stream_from(wcin);
+            utf8reader stdinReader(&cin);
+            lexeme_stream* stdinStream      = lexerStage.get_lexer()->create_stream_from<wchar_t>(stdinReader);
             ast_parser::state* stdInParser  = parser.create_parser(new ast_parser_actions(stdinStream));
             
             // Parse stdin
@@ -341,7 +342,8 @@ int main (int argc, const char * argv[])
             trace_parser parser(*lrParserStage.get_tables());
             
             // Create the parser
-            lexeme_stream* stdinStream          = lexerStage.get_lexer()->create_stream_from(wcin);
+            utf8reader stdinReader(&cin);
+            lexeme_stream* stdinStream          = lexerStage.get_lexer()->create_stream_from<wchar_t>(stdinReader);
             trace_parser::state* stdInParser    = parser.create_parser(new ast_parser_actions(stdinStream));
             
             // Parse stdin
-- 
2.43.0


From d3c2234beaef7bfe71af38a678a10acaf3336b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:17 +0000
Subject: [PATCH 40/61] fix: filenames and option values that are not ASCII
 made the tool abort

---
 parsetool/boost_console.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/parsetool/boost_console.cpp b/parsetool/boost_console.cpp
index f9e1d6a..294e56e 100644
--- a/parsetool/boost_console.cpp
+++ b/parsetool/boost_console.cpp
@@ -36,6 +36,7 @@
 #include "boost/program_options.hpp"
 #include "boost/filesystem.hpp"
 #include "boost/filesystem/fstream.hpp"
+#include "boost/filesystem/detail/utf8_codecvt_facet.hpp"
 
 using namespace std;
 using namespace compiler;
@@ -53,6 +54,9 @@ boost_console::boost_console(const boost_console& bc)
 /// \brief Constructor
 boost_console::boost_console(int argc, const char** argv) 
 : std_console(L"") {
+    // Filenames are in UTF-8, whatever the locale
+    fs::path::imbue(std::locale(std::locale(), new fs::detail::utf8_codecvt_facet()));
+
     // Declare the options supported by the tameparse utility
     po::options_description inputOptions("Input options");
 
@@ -188,11 +192,16 @@ void boost_console::report_error(const compiler::error& error) {
 
 /// \brief Simple conversion from a string to wstring
 static wstring convert(string asciiValue) {
-    // Convert to a wstring by assuming that the string is latin-1
-    // TODO: could take account of the locale here, somehow
+    // Option values are in UTF-8, like filenames
+    try {
+        return fs::path(asciiValue).wstring();
+    } catch (const std::exception&) {
+        // Not a valid string: assume that it's latin-1 instead
+    }
+
     wstring value;
     for (size_t x = 0; x < asciiValue.size(); ++x) {
-        value += (wchar_t) asciiValue[x];
+        value += (wchar_t) (unsigned char) asciiValue[x];
     }
 
     return value;
-- 
2.43.0


From 3a27b257aced198be8f0e591dbea754201bd5c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:17 +0000
Subject: [PATCH 41/61] fix: the --include-path option had no effect

---
 parsetool/boost_console.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parsetool/boost_console.cpp b/parsetool/boost_console.cpp
index 294e56e..daca16b 100644
--- a/parsetool/boost_console.cpp
+++ b/parsetool/boost_console.cpp
@@ -355,6 +355,13 @@ std::istream* boost_console::open_file(const std::wstring& filename) {
         
         // Try to open this path
         readFile->open(inputPath, fstream::in | fstream::binary);
+
+        // Then try the paths that were specified on the command line
+        vector<wstring> includePaths = get_option_list(L"include-path");
+        for (vector<wstring>::const_iterator include = includePaths.begin(); readFile->fail() && include != includePaths.end(); ++include) {
+            readFile->close();
+            readFile->open(fs::wpath(*include) / path, fstream::in | fstream::binary);
+        }
     }
     
     // Return NULL if the file failed to open
-- 
2.43.0


From b1139257a3613d84afb8f51820b6a2041ca5065d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:50 +0000
Subject: [PATCH 42/61] fix: failing to write a generated file was not an error

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index 9cde647..34a55c3 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -315,7 +315,17 @@ void output_cplusplus::begin_output() {
     m_SourceFile = cons().open_binary_file_for_writing(sourceFilename);
     m_HeaderFile = cons().open_binary_file_for_writing(headerFilename);
 
-    // TODO: check for errors (file streams will be NULL)
+    // Check for errors
+    if (!m_SourceFile || m_SourceFile->fail()) {
+        cons().report_error(error(error::sev_error, sourceFilename, L"CANT_WRITE_FILE", L"Cannot write to file", position(-1, -1, -1)));
+    }
+    if (!m_HeaderFile || m_HeaderFile->fail()) {
+        cons().report_error(error(error::sev_error, headerFilename, L"CANT_WRITE_FILE", L"Cannot write to file", position(-1, -1, -1)));
+    }
+
+    // The output goes nowhere if there's no file to write it to
+    if (!m_SourceFile) m_SourceFile = new ostream(NULL);
+    if (!m_HeaderFile) m_HeaderFile = new ostream(NULL);
 
     // Write out a header
     write_header(sourceFilename, m_SourceFile);
@@ -358,6 +368,16 @@ void output_cplusplus::end_output() {
     }
 
     *m_HeaderFile << "\n#endif\n";    // End of the conditional
+
+    // Check that everything could be written
+    if (!cons().exit_code()) {
+        if (!m_SourceFile->flush()) {
+            cons().report_error(error(error::sev_error, m_FilenamePrefix + L".cpp", L"CANT_WRITE_FILE", L"Cannot write to file", position(-1, -1, -1)));
+        }
+        if (!m_HeaderFile->flush()) {
+            cons().report_error(error(error::sev_error, m_FilenamePrefix + L".h", L"CANT_WRITE_FILE", L"Cannot write to file", position(-1, -1, -1)));
+        }
+    }
 }
 
 
-- 
2.43.0


From db2d55b0a2d011f793de79760009520694067323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:13 +0000
Subject: [PATCH 43/61] fix: a lexer symbol that refers to itself overflowed
 the stack

---
 TameParse/Compiler/lexer_stage.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/TameParse/Compiler/lexer_stage.cpp b/TameParse/Compiler/lexer_stage.cpp
index 27ba9f5..4e59bd7 100644
--- a/TameParse/Compiler/lexer_stage.cpp
+++ b/TameParse/Compiler/lexer_stage.cpp
@@ -114,10 +114,19 @@ namespace compiler {
         /// \brief The lexer data that should be used to compile expressions
         const lexer_data* m_Data;
 
+        /// \brief The expressions that are currently being compiled
+        set<symbol_string> m_Compiling;
+
+        /// \brief The expressions that were found to refer to themselves
+        set<symbol_string> m_Recursive;
+
     public:
         ndfa_lexer_compiler(const lexer_data* data)
         : m_Data(data) { }
 
+        /// \brief The expressions that were found to refer to themselves
+        const set<symbol_string>& recursive_expressions() const { return m_Recursive; }
+
         /// \brief Compiles the value of a {} expression
         virtual bool compile_expression(const symbol_string& expression, builder& cons) {
             // Look up the expression in the lexer data
@@ -126,6 +135,12 @@ namespace compiler {
             // Use the standard behaviour if we don't find any items
             if (items.empty()) return ndfa_regex::compile_expression(expression, cons);
 
+            // An expression can't be part of itself
+            if (!m_Compiling.insert(expression).second) {
+                m_Recursive.insert(expression);
+                return true;
+            }
+
             // Remember the current state of the builder
             bool isLower = cons.make_lowercase();
             bool isUpper = cons.make_uppercase();
@@ -169,6 +184,7 @@ namespace compiler {
             // Done: reset the constructor
             cons.set_case_options(isLower, isUpper);
             cons.pop();
+            m_Compiling.erase(expression);
 
             // Found an expression
             return true;
@@ -383,6 +399,16 @@ void lexer_stage::compile() {
         }
     }
 
+    // Report any expressions that refer to themselves
+    for (set<symbol_string>::const_iterator recursive = stage0->recursive_expressions().begin(); recursive != stage0->recursive_expressions().end(); ++recursive) {
+        wstring             name    = ndfa_regex::convert_syms(*recursive);
+        const lexer_item&   item    = *lex->get_expressions(name).begin();
+        wstringstream       msg;
+
+        msg << L"Lexer symbol refers to itself: '" << name << L"'";
+        cons().report_error(error(error::sev_error, item.filename?*item.filename:filename(), L"BAD_REGULAR_EXPRESSION", msg.str(), item.position));
+    }
+
     // Finish the 'bland' ignore builder, if there were any 'bland' symbols
     if (!firstIgnore) {
         // Pop the entry on the stack
-- 
2.43.0


From cb04172e172136261a66e6b3fd20b075d6396a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:13 +0000
Subject: [PATCH 44/61] fix: quoted brackets in groups and sets were reported
 as missing brackets

---
 TameParse/Dfa/ndfa_regex.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/TameParse/Dfa/ndfa_regex.cpp b/TameParse/Dfa/ndfa_regex.cpp
index c033013..63e45d6 100644
--- a/TameParse/Dfa/ndfa_regex.cpp
+++ b/TameParse/Dfa/ndfa_regex.cpp
@@ -567,6 +567,12 @@ void ndfa_regex::check(position_tracker& exprPos, symbol_string::const_iterator&
 
             do {
                 switch (*bracketPos) {
+                    case '\\':
+                        // Quoted characters aren't brackets
+                        ++bracketPos;
+                        if (bracketPos == end) --bracketPos;
+                        break;
+
                     case '{':
                         if (brackets.empty() || brackets.top() == ')') {
                             brackets.push('}');
-- 
2.43.0


From a065fccd0780c95db3be337cf2bd4b271aa00513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:13 +0000
Subject: [PATCH 45/61] fix: references to literal expressions were reported as
 unknown

---
 TameParse/Dfa/ndfa_regex.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TameParse/Dfa/ndfa_regex.cpp b/TameParse/Dfa/ndfa_regex.cpp
index 63e45d6..5cc1eb7 100644
--- a/TameParse/Dfa/ndfa_regex.cpp
+++ b/TameParse/Dfa/ndfa_regex.cpp
@@ -929,6 +929,9 @@ bool ndfa_regex::check_expression(const symbol_string& expression) {
     if (m_ExpressionMap.find(expression) != m_ExpressionMap.end()) {
         return true;
     }
+    if (m_LiteralExpressionMap.find(expression) != m_LiteralExpressionMap.end()) {
+        return true;
+    }
 
     // Check if this is a valid unicode expression
     if (!unicode_for_expression(expression).empty()) {
-- 
2.43.0


From adcd7c2007a3daeabe5726aa737b9174951f51f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:25 +0000
Subject: [PATCH 46/61] fix: a file imported through different paths was
 imported more than once

---
 parsetool/boost_console.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/parsetool/boost_console.cpp b/parsetool/boost_console.cpp
index daca16b..dd0f246 100644
--- a/parsetool/boost_console.cpp
+++ b/parsetool/boost_console.cpp
@@ -303,8 +303,23 @@ std::wstring boost_console::real_path(const std::wstring& pathname) {
     fs::wpath absolute;
     
     try {
+        // Files are looked for in the same places as in open_file
+        if (path.is_relative() && !fs::exists(path) && !input_file().empty()) {
+            fs::wpath candidate = fs::wpath(input_file()).remove_filename() / path;
+
+            vector<wstring> includePaths = get_option_list(L"include-path");
+            for (vector<wstring>::const_iterator include = includePaths.begin(); !fs::exists(candidate) && include != includePaths.end(); ++include) {
+                candidate = fs::wpath(*include) / path;
+            }
+
+            if (fs::exists(candidate)) path = candidate;
+        }
+
         // Try to get the absolute path for this file
         absolute = fs::absolute(path);
+
+        // The same file can be reached through different paths
+        if (fs::exists(absolute)) absolute = fs::canonical(absolute);
         return absolute.generic_wstring();
     } catch (fs::filesystem_error e) {
         // Report as an error
-- 
2.43.0


From dda5b7442d902c758eb068eda3855d074880b38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:21 +0000
Subject: [PATCH 47/61] fix: tracing a parser crashed when it rejected the end
 of its input

---
 TameParse/Lr/parser.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/TameParse/Lr/parser.h b/TameParse/Lr/parser.h
index 1cf83f3..20f2b1d 100644
--- a/TameParse/Lr/parser.h
+++ b/TameParse/Lr/parser.h
@@ -108,6 +108,11 @@ namespace lr {
         }
 
         inline void reject(const lexeme_container& lookahead) {
+            if (!lookahead.item()) {
+                std::wcerr << L"REJECT: end of input" << std::endl;
+                return;
+            }
+
             std::wcerr << L"REJECT: " << lookahead->content<wchar_t>() << L" (" << lookahead->matched() << L")" << std::endl;
             std::wcerr << L"At line: " << lookahead->pos().line() << std::endl;
         }
-- 
2.43.0


From d791246c233c87d0605370bbfaa8b16bc1eda867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:21 +0000
Subject: [PATCH 48/61] fix: sets containing characters outside of the BMP were
 wrong in definition files

---
 TameParse/Dfa/ndfa_regex.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/TameParse/Dfa/ndfa_regex.cpp b/TameParse/Dfa/ndfa_regex.cpp
index 5cc1eb7..7cc590d 100644
--- a/TameParse/Dfa/ndfa_regex.cpp
+++ b/TameParse/Dfa/ndfa_regex.cpp
@@ -72,6 +72,23 @@ symbol_string ndfa_regex::convert(const string& source) {
     return result;
 }
 
+/// \brief Appends a character to a symbol string
+///
+/// Wide strings can be in UTF-16: the two halves of a surrogate pair are one symbol, so that it's possible to use the
+/// character they stand for in a set or a range.
+static void append_character(symbol_string& result, int chr) {
+    if (chr >= 0xdc00 && chr < 0xe000 && !result.empty()) {
+        int& last = result[result.size()-1];
+
+        if (last >= 0xd800 && last < 0xdc00) {
+            last = 0x10000 + ((last & 0x3ff) << 10) + (chr & 0x3ff);
+            return;
+        }
+    }
+
+    result += chr;
+}
+
 /// \brief Converts a wstring to a symbol_string
 symbol_string ndfa_regex::convert(const wstring& source) {
     // Create the result
@@ -80,7 +97,7 @@ symbol_string ndfa_regex::convert(const wstring& source) {
     
     // Fill it in, treating the characters as unsigned
     for (wstring::const_iterator chr=source.begin(); chr != source.end(); ++chr) {
-        result += (int)(unsigned)(wchar_t)*chr;
+        append_character(result, (int)(unsigned)(wchar_t)*chr);
     }
     
     // This is the result
@@ -110,7 +127,7 @@ symbol_string ndfa_regex::convert(wchar_t* source) {
     
     // Fill it in, treating the characters as unsigned
     for (wchar_t* pos = source; *pos != 0; ++pos) {
-        result += (int)(unsigned)(wchar_t)*pos;
+        append_character(result, (int)(unsigned)(wchar_t)*pos);
     }
     
     // This is the result
-- 
2.43.0


From da1d0b1cb2ad1c16c056c187381db83bfc9b37d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:03 +0000
Subject: [PATCH 49/61] fix: clashing guards were not reported if they are at
 the start of a rule

---
 TameParse/Compiler/lr_parser_stage.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/TameParse/Compiler/lr_parser_stage.cpp b/TameParse/Compiler/lr_parser_stage.cpp
index 781d512..7d9e4b3 100644
--- a/TameParse/Compiler/lr_parser_stage.cpp
+++ b/TameParse/Compiler/lr_parser_stage.cpp
@@ -141,8 +141,9 @@ static void warn_clashing_guards(console& cons, const language_stage* language,
             // Guard items that have the clashing flag set
             set<lr0_item_container> allowedToClash;
 
-            // Get the state ID
-            const lalr_state_container& state = builder->machine().state_with_id(stateId);
+            // Get the items that can refer to a guard in this state (the guards are often at the start of a rule, so this needs to be the closure)
+            lalr_builder::closure_set closure;
+            lalr_builder::create_closure(closure, *builder->machine().state_with_id(stateId), &builder->gram());
 
             // Iterate through the guards
             for (set<item_container>::iterator clashingGuard = guarded->second.begin(); clashingGuard != guarded->second.end(); ++clashingGuard) {
@@ -150,7 +151,7 @@ static void warn_clashing_guards(console& cons, const language_stage* language,
                 warnedGuards.insert(*clashingGuard);
 
                 // Find all of the LR items that have a reference to this guard
-                for (lalr_state::iterator lrItem = state->begin(); lrItem != state->end(); ++lrItem) {
+                for (lalr_builder::closure_set::const_iterator lrItem = closure.begin(); lrItem != closure.end(); ++lrItem) {
                     // Ignore at end items
                     if ((*lrItem)->at_end()) continue;
 
-- 
2.43.0


From fcf39bdeeea6bc1a925a9fbdb623e40ef8742d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:03 +0000
Subject: [PATCH 50/61] fix: the details of clashing guards were reported in
 the wrong file

---
 TameParse/Compiler/lr_parser_stage.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/TameParse/Compiler/lr_parser_stage.cpp b/TameParse/Compiler/lr_parser_stage.cpp
index 7d9e4b3..6ff1b3d 100644
--- a/TameParse/Compiler/lr_parser_stage.cpp
+++ b/TameParse/Compiler/lr_parser_stage.cpp
@@ -188,7 +188,7 @@ static void warn_clashing_guards(console& cons, const language_stage* language,
                     msg << (!shownWarning?L"when used here: ":L"or here: ")
                         << formatter::to_string(**lrItem, builder->gram(), builder->terminals());
                     
-                    cons.report_error(error(error::sev_detail, language->filename(), L"CLASHING_GUARDS_DETAIL", msg.str(), rulePos));
+                    cons.report_error(error(error::sev_detail, ruleFile, L"CLASHING_GUARDS_DETAIL", msg.str(), rulePos));
 
                     shownWarning    = true;
                 }
@@ -199,12 +199,13 @@ static void warn_clashing_guards(console& cons, const language_stage* language,
                 for (set<lr0_item_container>::const_iterator remainingGuard = allowedToClash.begin(); remainingGuard != allowedToClash.end(); ++remainingGuard) {
                     int             ruleId      = (*remainingGuard)->rule()->identifier(*language->grammar());
                     position        rulePos     = language->rule_definition_pos(ruleId);
+                    const wstring&  ruleFile    = language->rule_definition_file(ruleId);
                     
                     wstringstream msg;
                     msg << L"or here: "
                     << formatter::to_string(**remainingGuard, builder->gram(), builder->terminals());
                     
-                    cons.report_error(error(error::sev_detail, language->filename(), L"CLASHING_GUARDS_DETAIL", msg.str(), rulePos));
+                    cons.report_error(error(error::sev_detail, ruleFile, L"CLASHING_GUARDS_DETAIL", msg.str(), rulePos));
                 }
             }
         }
-- 
2.43.0


From 0efab2e14da474f7b43252a5db7423276c8d224d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:20 +0000
Subject: [PATCH 51/61] fix: a guard that can start with itself overflowed the
 stack

---
 TameParse/Compiler/language_stage.cpp |  7 +++++
 TameParse/ContextFree/guard.cpp       | 45 ++++++++++++++-------------
 2 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/TameParse/Compiler/language_stage.cpp b/TameParse/Compiler/language_stage.cpp
index 861e1c7..aabf49c 100644
--- a/TameParse/Compiler/language_stage.cpp
+++ b/TameParse/Compiler/language_stage.cpp
@@ -552,6 +552,13 @@ void language_stage::compile() {
                 cons().report_error(error(error::sev_error, *checkGuard->second.second, L"INEFFECTIVE_GUARD", msg.str(), checkGuard->second.first));
             }
         }
+
+        // A guard that can start with itself can never be decided: the parser would need to check it in order to check it
+        if (theGuard->initial(m_Grammar).contains(checkGuard->first)) {
+            wstringstream msg;
+            msg << L"Guard '" << formatter::to_string(*theGuard, m_Grammar, m_Terminals) << "' can start with itself.";
+            cons().report_error(error(error::sev_error, *checkGuard->second.second, L"RECURSIVE_GUARD", msg.str(), checkGuard->second.first));
+        }
     }
 
     // Display a summary of what the grammar and lexer contains if we're in verbose mode
diff --git a/TameParse/ContextFree/guard.cpp b/TameParse/ContextFree/guard.cpp
index c30720f..c03df34 100644
--- a/TameParse/ContextFree/guard.cpp
+++ b/TameParse/ContextFree/guard.cpp
@@ -25,6 +25,7 @@
 //  IN THE SOFTWARE.
 //
 
+#include <set>
 #include <stack>
 
 #include "TameParse/ContextFree/guard.h"
@@ -167,33 +168,35 @@ bool guard::operator<(const item& compareTo) const {
 
 /// \brief Computes the set of symbols that can form the initial symbol of a lookahead that matches this guard
 item_set guard::initial(const grammar& gram) const {
-    // Get the result
+    // Start with the symbols that can begin this guard
     item_set res = gram.first_for_rule(*get_rule());
     
-    // Iterate through the items, and merge in any recursively defined guards
+    // Merge in the initial items of any guards that this can start with, and any guards that these guards can start with in turn
+    // (a guard is only looked at once, so this will finish even if a guard can start with itself)
+    set<int>            visited;
     stack<const guard*> guardItems;
     
-    for (item_set::const_iterator maybeGuard = res.begin(); maybeGuard != res.end(); ++maybeGuard) {
-        // Cast to a guard
-        const guard* asGuard = maybeGuard->cast_guard();
-        
-        // Check to see if Thor lives here
-        if (!asGuard) continue;
-        
-        // Push onto the stack of guard items
-        guardItems.push(asGuard);
-    }
-    
-    // Merge in any guard items (will overflow the stack if this is recursive, but that doesn't define a valid grammar in any case)
+    guardItems.push(this);
+
     while (!guardItems.empty()) {
-        // Get the initial set for this guard
-        item_set recursiveInitial = guardItems.top()->initial(gram);
-        
-        // Add to this item
-        res.merge(recursiveInitial);
-        
-        // Carry on
+        // Get the symbols for this guard, and add them to the result
+        item_set nextItems = gram.first_for_rule(*guardItems.top()->get_rule());
         guardItems.pop();
+        res.merge(nextItems);
+        
+        // Push any guards that have not been looked at yet
+        for (item_set::const_iterator maybeGuard = nextItems.begin(); maybeGuard != nextItems.end(); ++maybeGuard) {
+            // Cast to a guard
+            const guard* asGuard = maybeGuard->cast_guard();
+            
+            // Check to see if Thor lives here
+            if (!asGuard) continue;
+            
+            // Push onto the stack of guard items
+            if (visited.insert(gram.identifier_for_item(*maybeGuard)).second) {
+                guardItems.push(asGuard);
+            }
+        }
     }
     
     // Return the result
-- 
2.43.0


From 00cff5240b11cfbd793ecc00e74c11b5b76f6033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:54 +0000
Subject: [PATCH 52/61] fix: conflicts between the actions of a weak symbol
 were silently turned into weak reductions

---
 TameParse/Lr/weak_symbols.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/TameParse/Lr/weak_symbols.cpp b/TameParse/Lr/weak_symbols.cpp
index 49b7f10..39ed808 100644
--- a/TameParse/Lr/weak_symbols.cpp
+++ b/TameParse/Lr/weak_symbols.cpp
@@ -267,13 +267,29 @@ void weak_symbols::rewrite_actions(int state, lr_action_set& actions, const lalr
         weakActions.push(*act);
     }
     
+    // Weak symbols that have several actions of their own in this state
+    set<int> conflicted;
+    
+    for (map<int, int>::const_iterator weakSym = weakSymbols.begin(); weakSym != weakSymbols.end(); ++weakSym) {
+        if (weakSym->second > 1) conflicted.insert(weakSym->first);
+    }
+    
     // Transform the actions associated with weak symbols
     while (!weakActions.empty()) {
         // Get the next action
         const lr_action_container& act = weakActions.top();
         
         // How this is rewritten depends on the action
-        switch (act->type()) {
+        lr_action::action_type type = act->type();
+        
+        if ((type == lr_action::act_reduce || type == lr_action::act_weakreduce) && conflicted.find(act->item()->symbol()) != conflicted.end()) {
+            // This is a conflict of the weak symbol itself, which is resolved in the same way as any other conflict
+            newActions.insert(act);
+            weakActions.pop();
+            continue;
+        }
+        
+        switch (type) {
             case lr_action::act_shift:
             case lr_action::act_shiftstrong:
             case lr_action::act_ignore:
-- 
2.43.0


From b777ded206d349d9535355b3960649a5992de684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:54 +0000
Subject: [PATCH 53/61] fix: a conflict of a strong symbol was reported again
 for its weak symbols

---
 TameParse/Lr/conflict.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/TameParse/Lr/conflict.cpp b/TameParse/Lr/conflict.cpp
index 33b6ee8..4a09c66 100644
--- a/TameParse/Lr/conflict.cpp
+++ b/TameParse/Lr/conflict.cpp
@@ -25,6 +25,8 @@
 //  IN THE SOFTWARE.
 //
 
+#include <iterator>
+
 #include "TameParse/Lr/conflict.h"
 
 using namespace std;
@@ -125,6 +127,7 @@ static void find_conflicts(const lalr_builder& builder, int stateId, conflict_li
         
         // Ignore items if all but one of the items are 'weak'
         int numWeak = 0;
+        bool fromStrong = false;
         for (lr_action_set::const_iterator nextAction = nextItem->second.begin(); nextAction != nextItem->second.end(); ++nextAction) {
             switch ((*nextAction)->type()) {
                 case lr_action::act_guard:
@@ -133,6 +136,10 @@ static void find_conflicts(const lalr_builder& builder, int stateId, conflict_li
                     ++numWeak;
                     break;
                     
+                case lr_action::act_shiftstrong:
+                    fromStrong = true;
+                    break;
+                    
                 default:
                     break;
             }
@@ -140,6 +147,9 @@ static void find_conflicts(const lalr_builder& builder, int stateId, conflict_li
         
         if (nextItem->second.size() - numWeak < 2) continue;
         
+        // Weak symbols only have these actions where all of the actions that can conflict were copied from the strong symbol: it's that symbol that has the conflict
+        if (fromStrong) continue;
+        
         // Create a new conflict for this action
         const item_container&   conflictToken = *nextItem->first;
         conflict_container      newConf(new conflict(stateId, conflictToken), true);
@@ -239,9 +249,11 @@ static void find_conflicts(const lalr_builder& builder, int stateId, conflict_li
             reduceTo.insert(sourceItems.begin(), sourceItems.end());
         }
         
-        // Ignore conflicts that contain no items at all
-        if (newConf->first_reduce_item() == newConf->last_reduce_item() && newConf->first_shift_item() == newConf->last_shift_item()) {
+        // Ignore conflicts with fewer than two items in them
+        size_t numItems = distance(newConf->first_shift_item(), newConf->last_shift_item()) + distance(newConf->first_reduce_item(), newConf->last_reduce_item());
+        if (numItems < 2) {
             // These items are generally caused by things like weak symbols where the action was generated spontaneously from a strong symbol
+            // (The conflict is reported for the strong symbol)
             continue;
         }
         
-- 
2.43.0


From b285e945bd434502581dbaa5d30c8e0d799af678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:54 +0000
Subject: [PATCH 54/61] fix: checking whether a weak symbol can be reduced took
 exponential time

---
 TameParse/Lr/parser_state.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/TameParse/Lr/parser_state.h b/TameParse/Lr/parser_state.h
index 8b420f8..289f6ed 100644
--- a/TameParse/Lr/parser_state.h
+++ b/TameParse/Lr/parser_state.h
@@ -427,6 +427,9 @@ namespace lr {
         // Get the initial action for the terminal
         parser_tables::action_iterator act = symbol_fetcher::find_symbol(m_Tables, state, symbol);
         
+        // The last weak reduce action that was found to be unsuccessful in this state
+        int failedRule = -1;
+        
         // Find the first reduce action for this item
         while (act != symbol_fetcher::last_symbol_action(m_Tables, state)) {
             // Fail if there are no actions for this terminal
@@ -470,12 +473,17 @@ namespace lr {
                     }
                     
                     // If not, keep looking for a stronger action
+                    failedRule = act->nextState;
                     ++act;
                     break;
                 }
                     
                 case lr_action::act_reduce:
                 {
+                    // There can be a weak and a normal reduction of the same rule for a weak symbol: trying both of them in every state takes exponential time
+                    if (act->nextState == failedRule) return false;
+                    failedRule = -1;
+                    
                     // Update our 'fake state' to be whatever will happen due to this reduce
                     fake_reduce(act, stackPos, pushed, underlyingStack);
                     
-- 
2.43.0


From 03b0b76ce3eaf3573aa06d7ebfa6e7a34b877c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:51 +0000
Subject: [PATCH 55/61] fix: copies of grammar blocks lost their positions

---
 TameParse/Language/grammar_block.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/TameParse/Language/grammar_block.cpp b/TameParse/Language/grammar_block.cpp
index 7a9ea71..27b3e34 100644
--- a/TameParse/Language/grammar_block.cpp
+++ b/TameParse/Language/grammar_block.cpp
@@ -64,6 +64,10 @@ grammar_block& grammar_block::operator=(const grammar_block& copyFrom) {
         m_Nonterminals.push_back(new nonterminal_definition(**toCopy));
     }
     
+    // Copy the position
+    set_start_pos(copyFrom.start_pos());
+    set_end_pos(copyFrom.end_pos());
+    
     return *this;
 }
 
-- 
2.43.0


From e3444a904e5aac1cd81f3b49ca21bb879c9884d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:56 +0000
Subject: [PATCH 56/61] fix: asking the empty item set whether it contains an
 item crashes

---
 TameParse/ContextFree/item_set.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TameParse/ContextFree/item_set.cpp b/TameParse/ContextFree/item_set.cpp
index be720d1..d9c26a5 100644
--- a/TameParse/ContextFree/item_set.cpp
+++ b/TameParse/ContextFree/item_set.cpp
@@ -242,6 +242,9 @@ bool item_set::contains(int itemId) const {
 
 /// \brief True if this set contains the specified item
 bool item_set::contains(const item_container& newItem) const {
+    // The empty set has no grammar (so items don't have identifiers in it)
+    if (m_Size == 0) return false;
+
     int itemId = m_Grammar->identifier_for_item(newItem);
     return contains(itemId);
 }
-- 
2.43.0


From 5d9f6af3ea5b8c0d1186abc83f1cf40dcef78ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:56 +0000
Subject: [PATCH 57/61] fix: item sets with the same items compare different
 after items are erased

---
 TameParse/ContextFree/item_set.h | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/TameParse/ContextFree/item_set.h b/TameParse/ContextFree/item_set.h
index d912abf..bd0b148 100644
--- a/TameParse/ContextFree/item_set.h
+++ b/TameParse/ContextFree/item_set.h
@@ -85,6 +85,13 @@ namespace contextfree {
     private:
         /// \brief Recalculates the size (number of items) in this object
         void count_size();
+
+        /// \brief The number of elements in m_Items up to the last one that is in use
+        inline int used_items() const {
+            int used = m_MaxItem;
+            while (used > 0 && m_Items[used-1] == 0) --used;
+            return used;
+        }
         
     public:
         /// \brief Adds the item with the specified identifier to this item.
@@ -126,11 +133,12 @@ namespace contextfree {
     public:
         /// \brief Returns true if this item set is equal to another
         inline bool operator==(const item_set& compareTo) const {
-            // Compare the m_MaxItem first
-            if (compareTo.m_MaxItem != m_MaxItem) return false;
+            // Compare the number of used elements first (there may be unused space after items are erased)
+            int used = used_items();
+            if (compareTo.used_items() != used) return false;
 
             // Compare the elements
-            for (int item = 0; item < m_MaxItem; ++item) {
+            for (int item = 0; item < used; ++item) {
                 if (m_Items[item] != compareTo.m_Items[item]) return false;
             }
 
@@ -143,12 +151,14 @@ namespace contextfree {
 
         /// \brief Orders this set relative to another
         inline bool operator<(const item_set& compareTo) const {
-            // Compare the m_MaxItem first
-            if (m_MaxItem < compareTo.m_MaxItem) return true;
-            if (compareTo.m_MaxItem < m_MaxItem) return false;
+            // Compare the number of used elements first (there may be unused space after items are erased)
+            int used        = used_items();
+            int theirUsed   = compareTo.used_items();
+            if (used < theirUsed) return true;
+            if (theirUsed < used) return false;
 
             // Compare the elements
-            for (int item = 0; item < m_MaxItem; ++item) {
+            for (int item = 0; item < used; ++item) {
                 if (m_Items[item] < compareTo.m_Items[item]) return true;
                 if (m_Items[item] > compareTo.m_Items[item]) return false;
             }
-- 
2.43.0


From fe46f386330a6cb60297d2b572d98beefd4c8804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:56 +0000
Subject: [PATCH 58/61] fix: containers compare as <= and >= to everything

---
 TameParse/Util/container.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TameParse/Util/container.h b/TameParse/Util/container.h
index 01829af..77c4a3b 100644
--- a/TameParse/Util/container.h
+++ b/TameParse/Util/container.h
@@ -153,12 +153,12 @@ namespace util {
         
         /// \brief Ordering operator
         inline bool operator>=(const container& compareTo) const {
-            return !operator<(*this);
+            return !operator<(compareTo);
         }
         
         /// \brief Ordering operator
         inline bool operator<=(const container& compareTo) const {
-            return !operator>(*this);
+            return !operator>(compareTo);
         }
         
         /// \brief Comparison operator
-- 
2.43.0


From d2be04055c5596e17c47a870d186e9befb471ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:56 +0000
Subject: [PATCH 59/61] fix: a rule keeps its old identifier when items are
 added to it

---
 TameParse/ContextFree/rule.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/TameParse/ContextFree/rule.cpp b/TameParse/ContextFree/rule.cpp
index 24f0afc..b65065b 100644
--- a/TameParse/ContextFree/rule.cpp
+++ b/TameParse/ContextFree/rule.cpp
@@ -139,6 +139,9 @@ rule& rule::operator<<(const item_container& item) {
     m_Items.push_back(item);
     m_ItemKeys.push_back(0);
     
+    // This is now a different rule, so it has a different identifier
+    m_LastGrammar = NULL;
+    
     return *this;
 }
 
@@ -149,6 +152,10 @@ rule& rule::operator<<(const rule& rule) {
         m_Items.push_back(*sym);
         m_ItemKeys.push_back(rule.get_key(sym));
     }
+    
+    // This is now a different rule, so it has a different identifier
+    m_LastGrammar = NULL;
+    
     return *this;
 }
 
-- 
2.43.0


From c2589268ab2ba6e25c3bcc133a88eb0d3924cfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:56 +0000
Subject: [PATCH 60/61] fix: copies of a grammar free the sets of the original

---
 TameParse/ContextFree/grammar.cpp | 24 ++++++++++++++++++------
 TameParse/ContextFree/grammar.h   |  3 +++
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/TameParse/ContextFree/grammar.cpp b/TameParse/ContextFree/grammar.cpp
index c73f549..dd79846 100644
--- a/TameParse/ContextFree/grammar.cpp
+++ b/TameParse/ContextFree/grammar.cpp
@@ -47,15 +47,24 @@ grammar::grammar()
     m_EpsilonSet->insert(an_empty_item_c);
 }
 
+/// \brief Creates a copy of a grammar
+grammar::grammar(const grammar& copyFrom)
+: m_FirstSetsChanged(false) {
+    // The epsilon set belongs to this grammar (the empty item has the same identifier in every grammar)
+    m_EpsilonSet = new item_set(this);
+    m_EpsilonSet->insert(an_empty_item_c);
+    
+    // Copy the rest of the grammar
+    *this = copyFrom;
+}
+
 /// \brief Destroys a grammar
 grammar::~grammar() {
     // Finished with the epsilon set
     delete m_EpsilonSet;
     
     // Finished with the list of cached item sets
-    for (lr1_item_set_cache::iterator oldItemSets = m_CachedItemSets.begin(); oldItemSets != m_CachedItemSets.end(); ++oldItemSets) {
-        delete oldItemSets->second;
-    }
+    clear_caches();
 }
 
 /// \brief Assignment
@@ -75,9 +84,7 @@ grammar& grammar::operator=(const grammar& assignFrom) {
     m_RuleForIdentifier = assignFrom.m_RuleForIdentifier;
     
     // Clear the caches for this object
-    m_CachedFirstSets.clear();
-    m_CachedFollowSets.clear();
-    m_CachedItemSets.clear();
+    clear_caches();
     
     // Finished
     return *this;
@@ -210,6 +217,11 @@ const item_container& grammar::item_with_identifier(int id) const {
 void grammar::clear_caches() const {
     m_CachedFirstSets.clear();
     m_CachedFollowSets.clear();
+    
+    // Finished with the list of cached item sets
+    for (lr1_item_set_cache::iterator oldItemSets = m_CachedItemSets.begin(); oldItemSets != m_CachedItemSets.end(); ++oldItemSets) {
+        delete oldItemSets->second;
+    }
     m_CachedItemSets.clear();
 }
 
diff --git a/TameParse/ContextFree/grammar.h b/TameParse/ContextFree/grammar.h
index f1108a8..8802219 100644
--- a/TameParse/ContextFree/grammar.h
+++ b/TameParse/ContextFree/grammar.h
@@ -125,6 +125,9 @@ namespace contextfree {
         /// \brief Creates an empty grammar
         grammar();
         
+        /// \brief Creates a copy of a grammar
+        grammar(const grammar& copyFrom);
+        
         /// \brief Destructor
         ~grammar();
         
-- 
2.43.0


From c9b4b2a876e1d86ff5c16456e2a4db0f6def0d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:54 +0000
Subject: [PATCH 61/61] fix: rules use identifiers from a grammar that was
 freed or assigned to

---
 TameParse/ContextFree/grammar.cpp | 15 +++++++++++++--
 TameParse/ContextFree/grammar.h   |  9 +++++++++
 TameParse/ContextFree/rule.cpp    | 27 +++++++++++----------------
 TameParse/ContextFree/rule.h      |  4 ++--
 4 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/TameParse/ContextFree/grammar.cpp b/TameParse/ContextFree/grammar.cpp
index dd79846..f2f154f 100644
--- a/TameParse/ContextFree/grammar.cpp
+++ b/TameParse/ContextFree/grammar.cpp
@@ -40,16 +40,24 @@ static empty_item an_empty_item;
 // An item container with an empty item in it
 static item_container an_empty_item_c(&an_empty_item, false);
 
+/// \brief Returns a generation number that no other grammar has
+int grammar::next_generation() {
+    static int lastGeneration = 0;
+    return ++lastGeneration;
+}
+
 /// \brief Creates an empty grammar
 grammar::grammar()
-: m_FirstSetsChanged(false) {
+: m_FirstSetsChanged(false)
+, m_Generation(next_generation()) {
     m_EpsilonSet = new item_set(this);
     m_EpsilonSet->insert(an_empty_item_c);
 }
 
 /// \brief Creates a copy of a grammar
 grammar::grammar(const grammar& copyFrom)
-: m_FirstSetsChanged(false) {
+: m_FirstSetsChanged(false)
+, m_Generation(next_generation()) {
     // The epsilon set belongs to this grammar (the empty item has the same identifier in every grammar)
     m_EpsilonSet = new item_set(this);
     m_EpsilonSet->insert(an_empty_item_c);
@@ -86,6 +94,9 @@ grammar& grammar::operator=(const grammar& assignFrom) {
     // Clear the caches for this object
     clear_caches();
     
+    // Rules shouldn't use the identifiers they had in the old version of this grammar
+    m_Generation = next_generation();
+    
     // Finished
     return *this;
 }
diff --git a/TameParse/ContextFree/grammar.h b/TameParse/ContextFree/grammar.h
index 8802219..5c5728c 100644
--- a/TameParse/ContextFree/grammar.h
+++ b/TameParse/ContextFree/grammar.h
@@ -120,6 +120,12 @@ namespace contextfree {
         
         /// \brief Item set containing 'epsilon', representing an empty first or follow set
         item_set* m_EpsilonSet;
+        
+        /// \brief Number that is different for every set of rule identifiers (changed when this grammar is assigned to)
+        int m_Generation;
+        
+        /// \brief Returns a generation number that no other grammar has
+        static int next_generation();
 
     public:
         /// \brief Creates an empty grammar
@@ -173,6 +179,9 @@ namespace contextfree {
         /// grammar (including the implicit ones that were generated from EBNF items)
         inline int max_rule_identifier() const { return (int) m_RuleIdentifiers.size(); }
         
+        /// \brief A number identifying the rule identifiers of this grammar: it's never 0 and no two grammars share it
+        inline int generation() const { return m_Generation; }
+        
         /// \brief Returns an identifier given a rule. Identifiers are numbered from 0.
         int identifier_for_rule(const rule_container& rule) const;
         
diff --git a/TameParse/ContextFree/rule.cpp b/TameParse/ContextFree/rule.cpp
index b65065b..f0fb5ad 100644
--- a/TameParse/ContextFree/rule.cpp
+++ b/TameParse/ContextFree/rule.cpp
@@ -33,7 +33,7 @@ using namespace contextfree;
 /// \brief Creates a rule (with the empty nonterminal)
 rule::rule() 
 : m_NonTerminal(new empty_item(), true)
-, m_LastGrammar(NULL) {
+, m_LastGeneration(0) {
 }
 
 /// \brief Creates a copy of a rule
@@ -41,7 +41,7 @@ rule::rule(const rule& copyFrom)
 : m_NonTerminal(copyFrom.m_NonTerminal)
 , m_Items(copyFrom.m_Items)
 , m_ItemKeys(copyFrom.m_ItemKeys)
-, m_LastGrammar(NULL) {
+, m_LastGeneration(0) {
 }
 
 /// \brief Creates a copy of a rule with an alternative nonterminal
@@ -49,19 +49,19 @@ rule::rule(const rule& copyFrom, const item_container& nonTerminal)
 : m_NonTerminal(nonTerminal)
 , m_Items(copyFrom.m_Items)
 , m_ItemKeys(copyFrom.m_ItemKeys)
-, m_LastGrammar(NULL) {
+, m_LastGeneration(0) {
 }
 
 /// \brief Creates an empty rule, which reduces to the specified item
 rule::rule(const item_container& nonTerminal)
 : m_NonTerminal(nonTerminal)
-, m_LastGrammar(NULL) {
+, m_LastGeneration(0) {
 }
 
 /// \brief Creates an empty rule with a nonterminal identifier
 rule::rule(const int newNt)
 : m_NonTerminal(new contextfree::nonterminal(newNt), true)
-, m_LastGrammar(NULL) {
+, m_LastGeneration(0) {
 }
 
 /// \brief Copies the content of a rule into this one
@@ -69,7 +69,7 @@ rule& rule::operator=(const rule& copyFrom) {
     m_NonTerminal   = copyFrom.m_NonTerminal;
     m_Items         = copyFrom.m_Items;
     m_ItemKeys      = copyFrom.m_ItemKeys;
-    m_LastGrammar   = NULL;
+    m_LastGeneration = 0;
     
     return *this;
 }
@@ -140,7 +140,7 @@ rule& rule::operator<<(const item_container& item) {
     m_ItemKeys.push_back(0);
     
     // This is now a different rule, so it has a different identifier
-    m_LastGrammar = NULL;
+    m_LastGeneration = 0;
     
     return *this;
 }
@@ -154,21 +154,16 @@ rule& rule::operator<<(const rule& rule) {
     }
     
     // This is now a different rule, so it has a different identifier
-    m_LastGrammar = NULL;
+    m_LastGeneration = 0;
     
     return *this;
 }
 
 /// \brief Returns the identifier for this rule in the specified grammar
 int rule::identifier(const grammar& gram) const {
-    // DANGER WILL ROBINSON:
-    //   If a grammar is freed, then a new grammar created and this rule put into it, there is a non-zero chance
-    //   of m_LastGrammar being wrong!
-    //
-    //   OK for now. Rules are usually one-shot affairs.
-    if (&gram == m_LastGrammar) return m_Identifier;
-    
-    m_LastGrammar = &gram;
+    if (gram.generation() == m_LastGeneration) return m_Identifier;
+    
+    m_LastGeneration = gram.generation();
     return m_Identifier = gram.identifier_for_rule(*this);
 }
 
diff --git a/TameParse/ContextFree/rule.h b/TameParse/ContextFree/rule.h
index 3672605..0ea7df0 100644
--- a/TameParse/ContextFree/rule.h
+++ b/TameParse/ContextFree/rule.h
@@ -72,8 +72,8 @@ namespace contextfree {
         std::vector<int> m_ItemKeys;
         
     private:
-        /// \brief The last grammar that identifier() was called for (or NULL)
-        mutable const grammar* m_LastGrammar;
+        /// \brief The generation of the last grammar that identifier() was called for (or 0)
+        mutable int m_LastGeneration;
         
         /// \brief The identifier that was supplied to this rule in the specified grammar
         ///
-- 
2.43.0

