From f7c09f409400927c1fa25b68bbf0b8f78c629242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 01/81] fix: keep yaml sequence indices contiguous in Insert,
 PushFront and Erase

Insert looped forever or lost/duplicated items, PushFront never terminated
or left two indices owning one node, and Erase left holes that made Size()
disagree with operator[].
---
 apps/multiphysics/src/input/Yaml.cpp          | 52 ++++++++-----------
 .../src/Yaml-Serializable/src/Yaml.cpp        | 49 ++++++-----------
 2 files changed, 38 insertions(+), 63 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 76e86d1..e01c8ae 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -298,33 +298,22 @@ public:
     /////////////////////////////////////////////////////////////////////////////
     virtual Node* Insert(const size_t index)
     {
-        if (m_Sequence.size() == 0) {
-            Node* pNode = new Node;
-            m_Sequence.insert({ 0, pNode });
-            return pNode;
-        }
-
-        if (index >= m_Sequence.size()) {
-            auto it = m_Sequence.end();
-            --it;
-            Node* pNode = new Node;
-            m_Sequence.insert({ it->first, pNode });
-            return pNode;
+        if (index >= m_Sequence.size())
+        {
+            return PushBack();
         }
 
-        auto it = m_Sequence.cbegin();
-        while (it != m_Sequence.cend())
+        // Items are kept at contiguous indices. Add a slot at the end, then shift.
+        std::unique_ptr<Node> pNode(new Node);
+        size_t i = m_Sequence.size();
+        m_Sequence.insert({i, nullptr});
+        for (; i > index; i--)
         {
-            m_Sequence[it->first + 1] = it->second;
-
-            if (it->first == index) {
-                break;
-            }
+            m_Sequence[i] = m_Sequence[i - 1];
         }
 
-        Node* pNode = new Node;
-        m_Sequence.insert({ index, pNode });
-        return pNode;
+        m_Sequence[index] = pNode.get();
+        return pNode.release();
     }
 
     /////////////////////////////////////////////////////////////////////////////
@@ -345,13 +334,7 @@ public:
     /////////////////////////////////////////////////////////////////////////////
     virtual Node* PushFront()
     {
-        for (auto it = m_Sequence.cbegin(); it != m_Sequence.cend(); it++) {
-            m_Sequence[it->first + 1] = it->second;
-        }
-
-        Node* pNode = new Node;
-        m_Sequence.insert({ 0, pNode });
-        return pNode;
+        return Insert(0);
     }
 
     /////////////////////////////////////////////////////////////////////////////
@@ -403,11 +386,18 @@ public:
     virtual void Erase(const size_t index)
     {
         auto it = m_Sequence.find(index);
-        if (it == m_Sequence.end()) {
+        if (it == m_Sequence.end())
+        {
             return;
         }
         delete it->second;
-        m_Sequence.erase(index);
+
+        // Keep the indices of the remaining items contiguous.
+        for (auto next = std::next(it); next != m_Sequence.end(); it++, next++)
+        {
+            it->second = next->second;
+        }
+        m_Sequence.erase(it);
     }
 
     /////////////////////////////////////////////////////////////////////////////
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 70adec6..c0915cc 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -182,48 +182,27 @@ namespace Yaml
 
         virtual Node * Insert(const size_t index)
         {
-            if(m_Sequence.size() == 0)
-            {
-                Node * pNode = new Node;
-                m_Sequence.insert({0, pNode});
-                return pNode;
-            }
-
             if(index >= m_Sequence.size())
             {
-                auto it = m_Sequence.end();
-                --it;
-                Node * pNode = new Node;
-                m_Sequence.insert({it->first, pNode});
-                return pNode;
+                return PushBack();
             }
 
-            auto it = m_Sequence.cbegin();
-            while(it != m_Sequence.cend())
+            // Items are kept at contiguous indices. Add a slot at the end, then shift.
+            std::unique_ptr<Node> pNode(new Node);
+            size_t i = m_Sequence.size();
+            m_Sequence.insert({i, nullptr});
+            for(; i > index; i--)
             {
-                m_Sequence[it->first+1] = it->second;
-
-                if(it->first == index)
-                {
-                    break;
-                }
+                m_Sequence[i] = m_Sequence[i - 1];
             }
 
-            Node * pNode = new Node;
-            m_Sequence.insert({index, pNode});
-            return pNode;
+            m_Sequence[index] = pNode.get();
+            return pNode.release();
         }
 
         virtual Node * PushFront()
         {
-            for(auto it = m_Sequence.cbegin(); it != m_Sequence.cend(); it++)
-            {
-                m_Sequence[it->first+1] = it->second;
-            }
-
-            Node * pNode = new Node;
-            m_Sequence.insert({0, pNode});
-            return pNode;
+            return Insert(0);
         }
 
         virtual Node * PushBack()
@@ -249,7 +228,13 @@ namespace Yaml
                 return;
             }
             delete it->second;
-            m_Sequence.erase(index);
+
+            // Keep the indices of the remaining items contiguous.
+            for(auto next = std::next(it); next != m_Sequence.end(); it++, next++)
+            {
+                it->second = next->second;
+            }
+            m_Sequence.erase(it);
         }
 
         virtual void Erase(const std::string & key)
-- 
2.43.0


From c60737cac3bc78cf7e39eb597ecf02d32fa9b6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:38 +0000
Subject: [PATCH 02/81] fix: yaml Node assignment from itself, a descendant or
 an ancestor

The target was cleared before the source was read: self assignment lost the
data, assigning a descendant read freed memory, and assigning an ancestor
recursed without end.
---
 apps/multiphysics/src/input/Yaml.cpp                | 9 +++++++--
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index e01c8ae..8be5529 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -2380,8 +2380,13 @@ void Node::Erase(const std::string& key)
 /////////////////////////////////////////////////////////////////////////////
 Node& Node::operator =(const Node& node)
 {
-    NODE_IMP->Clear();
-    CopyNode(node, *this);
+    if (this != &node)
+    {
+        // Build the copy aside, node may be a part of this node or contain it.
+        Node copy;
+        CopyNode(node, copy);
+        std::swap(m_pImp, copy.m_pImp);
+    }
     return *this;
 }
 
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index c0915cc..a75a018 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -1058,8 +1058,13 @@ namespace Yaml
 
     Node & Node::operator = (const Node & node)
     {
-        NODE_IMP->Clear();
-        CopyNode(node, *this);
+        if(this != &node)
+        {
+            // Build the copy aside, node may be a part of this node or contain it.
+            Node copy;
+            CopyNode(node, copy);
+            std::swap(m_pImp, copy.m_pImp);
+        }
         return *this;
     }
 
-- 
2.43.0


From d7a3e4fe5b0c28d2e74cbb17b90fa41e415a8e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:40 +0000
Subject: [PATCH 03/81] fix: yaml Node copies keep empty sequences and maps

Copying a node turned every empty sequence or map in it into a None node.
---
 apps/multiphysics/src/input/Yaml.cpp                | 11 +++++++++++
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 8be5529..f8af200 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -4231,6 +4231,12 @@ void CopyNode(const Node& from, Node& to)
 
     switch (type) {
     case Node::SequenceType:
+        if (from.Size() == 0)
+        {
+            // Keep the type of empty nodes.
+            to.PushBack();
+            to.Erase(0);
+        }
         for (auto it = from.Begin(); it != from.End(); it++) {
             const Node& currentNode = (*it).second;
             Node& newNode = to.PushBack();
@@ -4238,6 +4244,11 @@ void CopyNode(const Node& from, Node& to)
         }
         break;
     case Node::MapType:
+        if (from.Size() == 0)
+        {
+            to[g_EmptyString];
+            to.Erase(g_EmptyString);
+        }
         for (auto it = from.Begin(); it != from.End(); it++) {
             const Node& currentNode = (*it).second;
             Node& newNode = to[(*it).first];
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index a75a018..02bf79b 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2700,6 +2700,12 @@ namespace Yaml
         switch(type)
         {
         case Node::SequenceType:
+            if(from.Size() == 0)
+            {
+                // Keep the type of empty nodes.
+                to.PushBack();
+                to.Erase(0);
+            }
             for(auto it = from.Begin(); it != from.End(); it++)
             {
                 const Node & currentNode = (*it).second;
@@ -2708,6 +2714,11 @@ namespace Yaml
             }
             break;
         case Node::MapType:
+            if(from.Size() == 0)
+            {
+                to[g_EmptyString];
+                to.Erase(g_EmptyString);
+            }
             for(auto it = from.Begin(); it != from.End(); it++)
             {
                 const Node & currentNode = (*it).second;
-- 
2.43.0


From e546c2192f4b779632bb734678f4b85f8d4601a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:56 +0000
Subject: [PATCH 04/81] fix: yaml separators within one quoted text

---
 apps/multiphysics/src/input/Yaml.cpp                | 5 +++--
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index f8af200..6969a3a 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -4098,9 +4098,8 @@ size_t FindNotCited(const std::string& input, char token, size_t& preQuoteCount)
         if (tokenPos < currentQuote.first) {
             return tokenPos;
         }
-        preQuoteCount++;
         if (tokenPos <= currentQuote.second) {
-            // Find next token
+            // Find next token, it may be within the same quote.
             if (tokenPos + 1 == input.size()) {
                 return std::string::npos;
             }
@@ -4108,8 +4107,10 @@ size_t FindNotCited(const std::string& input, char token, size_t& preQuoteCount)
             if (tokenPos == std::string::npos) {
                 return std::string::npos;
             }
+            continue;
         }
 
+        preQuoteCount++;
         currentQuoteIndex++;
     }
 
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 02bf79b..6a4ee0b 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2603,10 +2603,9 @@ namespace Yaml
             {
                 return tokenPos;
             }
-            preQuoteCount++;
             if(tokenPos <= currentQuote.second)
             {
-                // Find next token
+                // Find next token, it may be within the same quote.
                 if(tokenPos + 1 == input.size())
                 {
                     return std::string::npos;
@@ -2616,8 +2615,10 @@ namespace Yaml
                 {
                     return std::string::npos;
                 }
+                continue;
             }
 
+            preQuoteCount++;
             currentQuoteIndex++;
         }
 
-- 
2.43.0


From ea53da55044270e789070241956b45bb04a1cf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:56 +0000
Subject: [PATCH 05/81] fix: yaml placeholder node is not shared between
 threads

---
 apps/multiphysics/src/input/Yaml.cpp                | 2 +-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 6969a3a..0fdff15 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -59,7 +59,7 @@ static const std::string g_ErrorIndentation        = "Space indentation is less
 static const std::string g_ErrorInvalidBlockScalar = "Invalid block scalar.";
 static const std::string g_ErrorInvalidQuote       = "Invalid quote.";
 static const std::string g_EmptyString = "";
-static Yaml::Node g_NoneNode;
+static thread_local Yaml::Node g_NoneNode;
 
 // Global function definitions. Implemented at end of this source file.
 static std::string ExceptionMessage(const std::string& message, ReaderLine& line);
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 6a4ee0b..6a99ead 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -62,7 +62,7 @@ namespace Yaml
     static const std::string g_ErrorInvalidBlockScalar      = "Invalid block scalar.";
     static const std::string g_ErrorInvalidQuote            = "Invalid quote.";
     static const std::string g_EmptyString                  = "";
-    static Yaml::Node        g_NoneNode;
+    static thread_local Yaml::Node g_NoneNode;
 
     // Global function definitions. Implemented at end of this source file.
     static std::string ExceptionMessage(const std::string & message, ReaderLine & line);
-- 
2.43.0


From c679dfaddbfacb3706d301c8e5c699f039cf2986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:43 +0000
Subject: [PATCH 06/81] fix: yaml reports failing files and streams

---
 apps/multiphysics/src/input/Yaml.cpp          | 29 +++++++++++++-
 .../src/Yaml-Serializable/src/Yaml.cpp        | 38 +++++++++++++++++--
 2 files changed, 61 insertions(+), 6 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 0fdff15..bd70705 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -29,6 +29,7 @@
 #include <sstream>
 #include <vector>
 #include <list>
+#include <limits>
 #include <cstdio>
 #include <stdarg.h>
 
@@ -55,6 +56,10 @@ static const std::string g_ErrorDiffEntryNotAllowed     = "Different entry is no
 static const std::string g_ErrorIncorrectOffset    = "Incorrect offset.";
 static const std::string g_ErrorSequenceError      = "Error in sequence node.";
 static const std::string g_ErrorCannotOpenFile     = "Cannot open file.";
+static const std::string g_ErrorCannotReadFile          = "Cannot read file.";
+static const std::string g_ErrorCannotWriteFile         = "Cannot write file.";
+static const std::string g_ErrorCannotReadStream        = "Cannot read stream.";
+static const std::string g_ErrorCannotWriteStream       = "Cannot write stream.";
 static const std::string g_ErrorIndentation        = "Space indentation is less than 2.";
 static const std::string g_ErrorInvalidBlockScalar = "Invalid block scalar.";
 static const std::string g_ErrorInvalidQuote       = "Invalid quote.";
@@ -2891,6 +2896,11 @@ private:
             ReaderLine* pLine = new ReaderLine(line, lineNo, startOffset);
             m_Lines.push_back(pLine);
         }
+
+        // The device failed, the end of the document is unknown.
+        if (stream.bad()) {
+            throw OperationException(g_ErrorCannotReadStream);
+        }
     }
 
     /**
@@ -3567,11 +3577,19 @@ void Parse(Node& root, const char* filename)
     }
 
     f.seekg(0, f.end);
-    size_t fileSize = static_cast<size_t>(f.tellg());
+    const std::streamoff fileEnd = f.tellg();
     f.seekg(0, f.beg);
+    // A directory opens, but reports the largest possible end.
+    if (f.fail() || fileEnd < 0 || fileEnd == std::numeric_limits<std::streamoff>::max()) {
+        throw OperationException(g_ErrorCannotReadFile);
+    }
+    const size_t fileSize = static_cast<size_t>(fileEnd);
 
     std::unique_ptr<char[]> data(new char[fileSize]);
     f.read(data.get(), fileSize);
+    if (f.fail() || static_cast<size_t>(f.gcount()) != fileSize) {
+        throw OperationException(g_ErrorCannotReadFile);
+    }
     f.close();
 
     Parse(root, data.get(), fileSize);
@@ -3677,8 +3695,12 @@ void Serialize(const Node& root, const char* filename, const SerializeConfig& co
         throw OperationException(g_ErrorCannotOpenFile);
     }
 
-    f.write(stream.str().c_str(), stream.str().size());
+    const std::string data = stream.str();
+    f.write(data.c_str(), data.size());
     f.close();
+    if (f.fail()) {
+        throw OperationException(g_ErrorCannotWriteFile);
+    }
 }
 
 /////////////////////////////////////////////////////////////////////////////
@@ -3897,6 +3919,9 @@ void Serialize(const Node& root, std::iostream& stream, const SerializeConfig& c
     }
 
     SerializeLoop(root, stream, false, 0, config);
+    if (stream.fail()) {
+        throw OperationException(g_ErrorCannotWriteStream);
+    }
 }
 
 /////////////////////////////////////////////////////////////////////////////
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 6a99ead..3ad8812 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -29,6 +29,7 @@
 #include <sstream>
 #include <vector>
 #include <list>
+#include <limits>
 #include <cstdio>
 #include <stdarg.h>
 
@@ -58,6 +59,10 @@ namespace Yaml
     static const std::string g_ErrorIncorrectOffset         = "Incorrect offset.";
     static const std::string g_ErrorSequenceError           = "Error in sequence node.";
     static const std::string g_ErrorCannotOpenFile          = "Cannot open file.";
+    static const std::string g_ErrorCannotReadFile          = "Cannot read file.";
+    static const std::string g_ErrorCannotWriteFile         = "Cannot write file.";
+    static const std::string g_ErrorCannotReadStream        = "Cannot read stream.";
+    static const std::string g_ErrorCannotWriteStream       = "Cannot write stream.";
     static const std::string g_ErrorIndentation             = "Space indentation is less than 2.";
     static const std::string g_ErrorInvalidBlockScalar      = "Invalid block scalar.";
     static const std::string g_ErrorInvalidQuote            = "Invalid quote.";
@@ -1490,6 +1495,12 @@ namespace Yaml
                 ReaderLine * pLine = new ReaderLine(line, lineNo, startOffset);
                 m_Lines.push_back(pLine);
             }
+
+            // The device failed, the end of the document is unknown.
+            if(stream.bad())
+            {
+                throw OperationException(g_ErrorCannotReadStream);
+            }
         }
 
         /**
@@ -2215,17 +2226,27 @@ namespace Yaml
     void Parse(Node & root, const char * filename)
     {
         std::ifstream f(filename, std::ifstream::binary);
-        if (f.is_open() == false)
+        if(f.is_open() == false)
         {
             throw OperationException(g_ErrorCannotOpenFile);
         }
 
         f.seekg(0, f.end);
-        size_t fileSize = static_cast<size_t>(f.tellg());
+        const std::streamoff fileEnd = f.tellg();
         f.seekg(0, f.beg);
+        // A directory opens, but reports the largest possible end.
+        if(f.fail() || fileEnd < 0 || fileEnd == std::numeric_limits<std::streamoff>::max())
+        {
+            throw OperationException(g_ErrorCannotReadFile);
+        }
+        const size_t fileSize = static_cast<size_t>(fileEnd);
 
         std::unique_ptr<char[]> data(new char[fileSize]);
         f.read(data.get(), fileSize);
+        if(f.fail() || static_cast<size_t>(f.gcount()) != fileSize)
+        {
+            throw OperationException(g_ErrorCannotReadFile);
+        }
         f.close();
 
         Parse(root, data.get(), fileSize);
@@ -2281,13 +2302,18 @@ namespace Yaml
         Serialize(root, stream, config);
 
         std::ofstream f(filename);
-        if (f.is_open() == false)
+        if(f.is_open() == false)
         {
             throw OperationException(g_ErrorCannotOpenFile);
         }
 
-        f.write(stream.str().c_str(), stream.str().size());
+        const std::string data = stream.str();
+        f.write(data.c_str(), data.size());
         f.close();
+        if(f.fail())
+        {
+            throw OperationException(g_ErrorCannotWriteFile);
+        }
     }
 
     size_t LineFolding(const std::string & input, std::vector<std::string> & folded, const size_t maxLength)
@@ -2487,6 +2513,10 @@ namespace Yaml
         }
 
         SerializeLoop(root, stream, false, 0, config);
+        if(stream.fail())
+        {
+            throw OperationException(g_ErrorCannotWriteStream);
+        }
     }
 
     void Serialize(const Node & root, std::string & string, const SerializeConfig & config)
-- 
2.43.0


From 84e7f2af9ba4d1b3b7fc6febcc6a2bf2c4b4ce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:08 +0000
Subject: [PATCH 07/81] fix: yaml failing allocations neither leak nor corrupt
 nodes

---
 apps/multiphysics/src/input/Yaml.cpp          | 79 +++++++++---------
 .../src/Yaml-Serializable/src/Yaml.cpp        | 83 +++++++++----------
 2 files changed, 74 insertions(+), 88 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index bd70705..521bce5 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -367,9 +367,9 @@ public:
             index = it->first + 1;
         }
 
-        Node* pNode = new Node;
-        m_Sequence.insert({ index, pNode });
-        return pNode;
+        std::unique_ptr<Node> pNode(new Node);
+        m_Sequence.insert({index, pNode.get()});
+        return pNode.release();
     }
 
     /////////////////////////////////////////////////////////////////////////////
@@ -543,9 +543,9 @@ public:
     {
         auto it = m_Map.find(key);
         if (it == m_Map.end()) {
-            Node* pNode = new Node;
-            m_Map.insert({ key, pNode });
-            return pNode;
+            std::unique_ptr<Node> pNode(new Node);
+            m_Map.insert({key, pNode.get()});
+            return pNode.release();
         }
         return it->second;
     }
@@ -942,10 +942,10 @@ public:
     void InitSequence()
     {
         if (m_Type != Node::SequenceType || m_pImp == nullptr) {
-            if (m_pImp) {
-                delete m_pImp;
-            }
-            m_pImp = new SequenceImp;
+            // Keep the old content until the new one exists.
+            TypeImp* pImp = new SequenceImp;
+            delete m_pImp;
+            m_pImp = pImp;
             m_Type = Node::SequenceType;
         }
     }
@@ -969,10 +969,10 @@ public:
     void InitMap()
     {
         if (m_Type != Node::MapType || m_pImp == nullptr) {
-            if (m_pImp) {
-                delete m_pImp;
-            }
-            m_pImp = new MapImp;
+            // Keep the old content until the new one exists.
+            TypeImp* pImp = new MapImp;
+            delete m_pImp;
+            m_pImp = pImp;
             m_Type = Node::MapType;
         }
     }
@@ -996,10 +996,10 @@ public:
     void InitScalar()
     {
         if (m_Type != Node::ScalarType || m_pImp == nullptr) {
-            if (m_pImp) {
-                delete m_pImp;
-            }
-            m_pImp = new ScalarImp;
+            // Keep the old content until the new one exists.
+            TypeImp* pImp = new ScalarImp;
+            delete m_pImp;
+            m_pImp = pImp;
             m_Type = Node::ScalarType;
         }
     }
@@ -2413,8 +2413,12 @@ Node& Node::operator =(const Node& node)
 /////////////////////////////////////////////////////////////////////////////
 Node& Node::operator =(const std::string& value)
 {
-    NODE_IMP->InitScalar();
-    TYPE_IMP->SetData(value);
+    // The value may be a key or a scalar within this node, copy it before anything is deleted.
+    std::unique_ptr<ScalarImp> pScalar(new ScalarImp);
+    pScalar->SetData(value);
+    NODE_IMP->Clear();
+    NODE_IMP->m_pImp = pScalar.release();
+    NODE_IMP->m_Type = Node::ScalarType;
     return *this;
 }
 
@@ -2436,9 +2440,7 @@ Node& Node::operator =(const std::string& value)
 /////////////////////////////////////////////////////////////////////////////
 Node& Node::operator =(const char* value)
 {
-    NODE_IMP->InitScalar();
-    TYPE_IMP->SetData(value ? std::string(value) : "");
-    return *this;
+    return *this = std::string(value ? value : "");
 }
 
 /////////////////////////////////////////////////////////////////////////////
@@ -2787,7 +2789,7 @@ public:
             // Print();
             ParseRoot(root);
         }
-        catch (Exception e)
+        catch (...)
         {
             root.Clear();
             throw;
@@ -2893,8 +2895,9 @@ private:
                 }
             }
 
-            ReaderLine* pLine = new ReaderLine(line, lineNo, startOffset);
-            m_Lines.push_back(pLine);
+            std::unique_ptr<ReaderLine> pLine(new ReaderLine(line, lineNo, startOffset));
+            m_Lines.push_back(pLine.get());
+            pLine.release();
         }
 
         // The device failed, the end of the document is unknown.
@@ -2972,7 +2975,9 @@ private:
 
         // Create new line and insert
         std::string newLine = pLine->Data.substr(valueStart);
-        it = m_Lines.insert(it, new ReaderLine(newLine, pLine->No, pLine->Offset + valueStart));
+        std::unique_ptr<ReaderLine> pNewLine(new ReaderLine(newLine, pLine->No, pLine->Offset + valueStart));
+        it = m_Lines.insert(it, pNewLine.get());
+        pNewLine.release();
         pLine->Data = "";
 
         return false;
@@ -3057,8 +3062,9 @@ private:
         if (IsBlockScalar(value, pLine->No, dummyBlockFlags) == true) {
             newLineOffset = pLine->Offset;
         }
-        ReaderLine* pNewLine = new ReaderLine(value, pLine->No, newLineOffset, Node::ScalarType);
-        it = m_Lines.insert(it, pNewLine);
+        std::unique_ptr<ReaderLine> pNewLine(new ReaderLine(value, pLine->No, newLineOffset, Node::ScalarType));
+        it = m_Lines.insert(it, pNewLine.get());
+        pNewLine.release();
 
         // Return false in order to handle next line(scalar value).
         return false;
@@ -3613,19 +3619,8 @@ void Parse(Node& root, const char* filename)
 /////////////////////////////////////////////////////////////////////////////
 void Parse(Node& root, std::iostream& stream)
 {
-    ParseImp* pImp = nullptr;
-
-    try
-    {
-        pImp = new ParseImp;
-        pImp->Parse(root, stream);
-        delete pImp;
-    }
-    catch (const Exception e)
-    {
-        delete pImp;
-        throw;
-    }
+    ParseImp imp;
+    imp.Parse(root, stream);
 }
 
 /////////////////////////////////////////////////////////////////////////////
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 3ad8812..b90d279 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -220,9 +220,9 @@ namespace Yaml
                 index = it->first + 1;
             }
 
-            Node * pNode = new Node;
-            m_Sequence.insert({index, pNode});
-            return pNode;
+            std::unique_ptr<Node> pNode(new Node);
+            m_Sequence.insert({index, pNode.get()});
+            return pNode.release();
         }
 
         virtual void Erase(const size_t index)
@@ -288,9 +288,9 @@ namespace Yaml
             auto it = m_Map.find(key);
             if(it == m_Map.end())
             {
-                Node * pNode = new Node;
-                m_Map.insert({key, pNode});
-                return pNode;
+                std::unique_ptr<Node> pNode(new Node);
+                m_Map.insert({key, pNode.get()});
+                return pNode.release();
             }
             return it->second;
         }
@@ -423,11 +423,10 @@ namespace Yaml
         {
             if(m_Type != Node::SequenceType || m_pImp == nullptr)
             {
-                if(m_pImp)
-                {
-                    delete m_pImp;
-                }
-                m_pImp = new SequenceImp;
+                // Keep the old content until the new one exists.
+                TypeImp * pImp = new SequenceImp;
+                delete m_pImp;
+                m_pImp = pImp;
                 m_Type = Node::SequenceType;
             }
         }
@@ -436,11 +435,10 @@ namespace Yaml
         {
             if(m_Type != Node::MapType || m_pImp == nullptr)
             {
-                if(m_pImp)
-                {
-                    delete m_pImp;
-                }
-                m_pImp = new MapImp;
+                // Keep the old content until the new one exists.
+                TypeImp * pImp = new MapImp;
+                delete m_pImp;
+                m_pImp = pImp;
                 m_Type = Node::MapType;
             }
         }
@@ -449,14 +447,12 @@ namespace Yaml
         {
             if(m_Type != Node::ScalarType || m_pImp == nullptr)
             {
-                if(m_pImp)
-                {
-                    delete m_pImp;
-                }
-                m_pImp = new ScalarImp;
+                // Keep the old content until the new one exists.
+                TypeImp * pImp = new ScalarImp;
+                delete m_pImp;
+                m_pImp = pImp;
                 m_Type = Node::ScalarType;
             }
-
         }
 
         Node::eType    m_Type;  ///< Type of node.
@@ -1075,16 +1071,18 @@ namespace Yaml
 
     Node & Node::operator = (const std::string & value)
     {
-        NODE_IMP->InitScalar();
-        TYPE_IMP->SetData(value);
+        // The value may be a key or a scalar within this node, copy it before anything is deleted.
+        std::unique_ptr<ScalarImp> pScalar(new ScalarImp);
+        pScalar->SetData(value);
+        NODE_IMP->Clear();
+        NODE_IMP->m_pImp = pScalar.release();
+        NODE_IMP->m_Type = Node::ScalarType;
         return *this;
     }
 
     Node & Node::operator = (const char * value)
     {
-        NODE_IMP->InitScalar();
-        TYPE_IMP->SetData(value ? std::string(value) : "");
-        return *this;
+        return *this = std::string(value ? value : "");
     }
 
     Iterator Node::Begin()
@@ -1371,7 +1369,7 @@ namespace Yaml
                 //Print();
                 ParseRoot(root);
             }
-            catch(Exception e)
+            catch(...)
             {
                 root.Clear();
                 throw;
@@ -1492,8 +1490,9 @@ namespace Yaml
                     }
                 }
 
-                ReaderLine * pLine = new ReaderLine(line, lineNo, startOffset);
-                m_Lines.push_back(pLine);
+                std::unique_ptr<ReaderLine> pLine(new ReaderLine(line, lineNo, startOffset));
+                m_Lines.push_back(pLine.get());
+                pLine.release();
             }
 
             // The device failed, the end of the document is unknown.
@@ -1581,7 +1580,9 @@ namespace Yaml
 
             // Create new line and insert
             std::string newLine = pLine->Data.substr(valueStart);
-            it = m_Lines.insert(it, new ReaderLine(newLine, pLine->No, pLine->Offset + valueStart));
+            std::unique_ptr<ReaderLine> pNewLine(new ReaderLine(newLine, pLine->No, pLine->Offset + valueStart));
+            it = m_Lines.insert(it, pNewLine.get());
+            pNewLine.release();
             pLine->Data = "";
 
             return false;
@@ -1679,8 +1680,9 @@ namespace Yaml
             {
                 newLineOffset = pLine->Offset;
             }
-            ReaderLine * pNewLine = new ReaderLine(value, pLine->No, newLineOffset, Node::ScalarType);
-            it = m_Lines.insert(it, pNewLine);
+            std::unique_ptr<ReaderLine> pNewLine(new ReaderLine(value, pLine->No, newLineOffset, Node::ScalarType));
+            it = m_Lines.insert(it, pNewLine.get());
+            pNewLine.release();
 
             // Return false in order to handle next line(scalar value).
             return false;
@@ -2254,19 +2256,8 @@ namespace Yaml
 
     void Parse(Node & root, std::iostream & stream)
     {
-        ParseImp * pImp = nullptr;
-
-        try
-        {
-            pImp = new ParseImp;
-            pImp->Parse(root, stream);
-            delete pImp;
-        }
-        catch (const Exception e)
-        {
-            delete pImp;
-            throw;
-        }
+        ParseImp imp;
+        imp.Parse(root, stream);
     }
 
     void Parse(Node & root, const std::string & string)
-- 
2.43.0


From 3e60376beb50e4f2b32642a71d27aa70cd7d5159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 08/81] fix: yaml serialization of block scalars on their own
 line or with one line

---
 apps/multiphysics/src/input/Yaml.cpp                |  8 +++++++-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 10 +++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 521bce5..ab3a83a 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -3851,7 +3851,10 @@ static void SerializeLoop(const Node& node, std::iostream& stream, bool useLevel
         }
 
         // Literal
-        if (lines.size() > 1) {
+        if (lines.size() > 1 || endNewline) {
+            if (useLevel) {
+                stream << std::string(level, ' ');
+            }
             stream << "|";
         }
         // Folded/plain
@@ -3871,6 +3874,9 @@ static void SerializeLoop(const Node& node, std::iostream& stream, bool useLevel
                 break;
             }
             else{
+                if (useLevel) {
+                    stream << std::string(level, ' ');
+                }
                 stream << ">";
             }
         }
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index b90d279..d05b8c7 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2447,8 +2447,12 @@ namespace Yaml
                 }
 
                 // Literal
-                if(lines.size() > 1)
+                if(lines.size() > 1 || endNewline)
                 {
+                    if(useLevel)
+                    {
+                        stream << std::string(level, ' ');
+                    }
                     stream << "|";
                 }
                 // Folded/plain
@@ -2473,6 +2477,10 @@ namespace Yaml
                     }
                     else
                     {
+                        if(useLevel)
+                        {
+                            stream << std::string(level, ' ');
+                        }
                         stream << ">";
                     }
                 }
-- 
2.43.0


From 1f239a1629dc223dad345fe4b540b66f46bb2983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:25 +0000
Subject: [PATCH 09/81] fix: yaml sequence items that start with a sequence on
 their own line

---
 apps/multiphysics/src/input/Yaml.cpp                | 3 ++-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index ab3a83a..65bd667 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -2980,7 +2980,8 @@ private:
         pNewLine.release();
         pLine->Data = "";
 
-        return false;
+        // The value may be a sequence, run all checks on it.
+        return true;
     }
 
     /**
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index d05b8c7..4cd7335 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -1585,7 +1585,8 @@ namespace Yaml
             pNewLine.release();
             pLine->Data = "";
 
-            return false;
+            // The value may be a sequence, run all checks on it.
+            return true;
         }
 
         /**
-- 
2.43.0


From 855fb72f6bc6b5b44880510f504283ac13934e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:34 +0000
Subject: [PATCH 10/81] fix: yaml iteration over nodes without items ends

---
 apps/multiphysics/src/input/Yaml.cpp                | 6 ++++--
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 65bd667..6cc88f5 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -1761,7 +1761,8 @@ bool Iterator::operator ==(const Iterator& it)
         break;
     }
 
-    return false;
+    // Nodes without items begin at their end.
+    return true;
 }
 
 /////////////////////////////////////////////////////////////////////////////
@@ -1998,7 +1999,8 @@ bool ConstIterator::operator ==(const ConstIterator& it)
         break;
     }
 
-    return false;
+    // Nodes without items begin at their end.
+    return true;
 }
 
 /////////////////////////////////////////////////////////////////////////////
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 4cd7335..656b76e 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -771,7 +771,8 @@ namespace Yaml
             break;
         }
 
-        return false;
+        // Nodes without items begin at their end.
+        return true;
     }
 
     bool Iterator::operator != (const Iterator & it)
@@ -924,7 +925,8 @@ namespace Yaml
             break;
         }
 
-        return false;
+        // Nodes without items begin at their end.
+        return true;
     }
 
     bool ConstIterator::operator != (const ConstIterator & it)
-- 
2.43.0


From 4929be56594c88ae5cc4bb4afa7c2fa37d93dbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:22 +0000
Subject: [PATCH 11/81] fix: yaml serialization ends when memory runs out

---
 apps/multiphysics/src/input/Yaml.cpp                | 5 ++++-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 6cc88f5..92f6d33 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -3840,11 +3840,14 @@ static void SerializeLoop(const Node& node, std::iostream& stream, bool useLevel
         std::string line = "";
         std::vector<std::string> lines;
         std::istringstream iss(value);
-        while (iss.eof() == false)
+        while (iss.good())
         {
             std::getline(iss, line);
             lines.push_back(line);
         }
+        if (iss.bad()) {
+            throw OperationException(g_ErrorCannotWriteStream);
+        }
 
         // Block scalar
         const std::string& lastLine = lines.back();
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 656b76e..879d89e 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2435,11 +2435,15 @@ namespace Yaml
                 std::string line = "";
                 std::vector<std::string> lines;
                 std::istringstream iss(value);
-                while (iss.eof() == false)
+                while(iss.good())
                 {
                     std::getline(iss, line);
                     lines.push_back(line);
                 }
+                if(iss.bad())
+                {
+                    throw OperationException(g_ErrorCannotWriteStream);
+                }
 
                 // Block scalar
                 const std::string & lastLine = lines.back();
-- 
2.43.0


From a7e32e8ba14fa460f4d0762aff5fdc7fe6da6261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:00 +0000
Subject: [PATCH 12/81] fix: yaml values that are empty or "" are read as empty
 text

---
 apps/multiphysics/src/input/Yaml.cpp                | 10 +++++++---
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp |  9 +++++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 92f6d33..8e91cc1 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -3054,7 +3054,7 @@ private:
                 return true;
             }
 
-            newLineOffset = tokenPos + 2;
+            newLineOffset = pLine->Offset + tokenPos + 2;
         }
         else{
             newLineOffset += pLine->Offset;
@@ -3303,6 +3303,11 @@ private:
                 data += " ";
             }
 
+            // Nothing but empty lines is an empty value.
+            if (data.find_first_not_of(" \n") == std::string::npos) {
+                data.clear();
+            }
+
             if (ValidateQuote(data) == false) {
                 throw ParsingException(ExceptionMessage(g_ErrorInvalidQuote, *pFirstLine));
             }
@@ -4199,8 +4204,7 @@ bool ValidateQuote(const std::string& input)
         if (input.size() == 1) {
             return false;
         }
-        token     = input[0];
-        searchPos = 1;
+        token = input[0];
     }
 
     while (searchPos != std::string::npos && searchPos < input.size() - 1)
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 879d89e..e7789d0 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -1670,7 +1670,7 @@ namespace Yaml
                     return true;
                 }
 
-                newLineOffset = tokenPos + 2;
+                newLineOffset = pLine->Offset + tokenPos + 2;
             }
             else
             {
@@ -1949,6 +1949,12 @@ namespace Yaml
                     data += " ";
                 }
 
+                // Nothing but empty lines is an empty value.
+                if(data.find_first_not_of(" \n") == std::string::npos)
+                {
+                    data.clear();
+                }
+
                 if(ValidateQuote(data) == false)
                 {
                     throw ParsingException(ExceptionMessage(g_ErrorInvalidQuote, *pFirstLine));
@@ -2683,7 +2689,6 @@ namespace Yaml
                 return false;
             }
             token = input[0];
-            searchPos = 1;
         }
 
         while(searchPos != std::string::npos && searchPos < input.size() - 1)
-- 
2.43.0


From 8d72fb4917b06ac07fe5b1502899aad75a631b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:08 +0000
Subject: [PATCH 13/81] fix: yaml empty texts are written as ""

---
 apps/multiphysics/src/input/Yaml.cpp                | 5 ++++-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 8e91cc1..2397bd0 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -3837,7 +3837,10 @@ static void SerializeLoop(const Node& node, std::iostream& stream, bool useLevel
 
         // Empty scalar
         if (value.size() == 0) {
-            stream << "\n";
+            if (useLevel) {
+                stream << std::string(level, ' ');
+            }
+            stream << "\"\"\n";
             break;
         }
 
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index e7789d0..2cc3888 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2433,7 +2433,11 @@ namespace Yaml
                 // Empty scalar
                 if(value.size() == 0)
                 {
-                    stream << "\n";
+                    if(useLevel)
+                    {
+                        stream << std::string(level, ' ');
+                    }
+                    stream << "\"\"\n";
                     break;
                 }
 
-- 
2.43.0


From bc9169fddc16a3cc4fd64026c8be817057c42b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:25 +0000
Subject: [PATCH 14/81] fix: values read from empty yaml text are initialised

---
 apps/multiphysics/src/input/Yaml.hpp                      | 4 ++--
 legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp   | 4 ++--
 .../include/yaml-serializable-containers.h                | 8 ++++----
 .../src/Yaml-Serializable/include/yaml-serializable.h     | 8 ++++----
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.hpp b/apps/multiphysics/src/input/Yaml.hpp
index 586657f..64fdfe6 100644
--- a/apps/multiphysics/src/input/Yaml.hpp
+++ b/apps/multiphysics/src/input/Yaml.hpp
@@ -69,7 +69,7 @@ namespace Yaml
         {
             static T Get(const std::string & data)
             {
-                T type;
+                T type = T();
                 std::stringstream ss(data);
                 ss >> type;
                 return type;
@@ -77,7 +77,7 @@ namespace Yaml
 
             static T Get(const std::string & data, const T & defaultValue)
             {
-                T type;
+                T type = T();
                 std::stringstream ss(data);
                 ss >> type;
 
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp b/legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp
index 586657f..64fdfe6 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp
@@ -69,7 +69,7 @@ namespace Yaml
         {
             static T Get(const std::string & data)
             {
-                T type;
+                T type = T();
                 std::stringstream ss(data);
                 ss >> type;
                 return type;
@@ -77,7 +77,7 @@ namespace Yaml
 
             static T Get(const std::string & data, const T & defaultValue)
             {
-                T type;
+                T type = T();
                 std::stringstream ss(data);
                 ss >> type;
 
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
index 3f0cd3f..a31b348 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
@@ -129,7 +129,7 @@ namespace Yaml {
         template<typename T, typename F>
         void deserialize_to_iterable(Node& node, bool raw, F inserter) {
             for(size_t i = 0; i < node.Size(); i++) {
-                T item;
+                T item = T();
                 deserialize_from_indexed_item(item, node, raw, i);
                 inserter(item);
             }
@@ -181,7 +181,7 @@ namespace Yaml {
         struct Impl<std::optional<T>> {
             static void deserialize(std::optional<T>& v, Yaml::Node& node, bool raw) {
                 if (!node.IsNone()) {
-                    T inner_value;
+                    T inner_value = T();
                     Yaml::deserialize(inner_value, node, raw);
                     v = inner_value;
                 } 
@@ -226,7 +226,7 @@ namespace Yaml {
                 if constexpr (decltype(IsTypeDiscriminated<T>::check(*v))::value) {
                     v = std::move(T::deserialize_as_derived(node, raw));
                 } else {
-                    T inner_v;
+                    T inner_v = T();
                     Yaml::deserialize(inner_v, node, raw);
                     v = std::make_shared<T>(inner_v);
                 }
@@ -253,7 +253,7 @@ namespace Yaml {
                 if constexpr (decltype(IsTypeDiscriminated<T>::check(*v))::value) {
                     v = std::move(T::deserialize_as_derived(node, raw));
                 } else {
-                    T inner_v;
+                    T inner_v = T();
                     Yaml::deserialize(inner_v, node, raw);
                     v = std::make_unique<T>(inner_v);
                 }
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h
index ae8cb36..11bdc4d 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h
@@ -145,7 +145,7 @@ namespace Yaml {
     inline T from_string(const std::string& s) {
         Node node;
         Parse(node, s);
-        T v;
+        T v = T();
         from(node, v);
         return v;
     }
@@ -160,7 +160,7 @@ namespace Yaml {
     inline T from_string_strict(const std::string& s) {
         Node node;
         Parse(node, s);
-        T v;
+        T v = T();
         from_strict(node, v);
         return v;
     }
@@ -208,7 +208,7 @@ namespace Yaml {
         // Pass c_str to get the file reading functionality.
         // If its a string it will just parse it directly.
         Parse(node, filename.c_str());
-        T v;
+        T v = T();
         from(node, v);
         return v;
     }
@@ -226,7 +226,7 @@ namespace Yaml {
         // Pass c_str to get the file reading functionality.
         // If its a string it will just parse it directly.
         Parse(node, filename.c_str());
-        T v;
+        T v = T();
         from_strict(node, v);
         return v;
     }
-- 
2.43.0


From 3094785f0da9c0f3939949252216c11e097c2ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:38 +0000
Subject: [PATCH 15/81] fix: floating point numbers keep their value when saved
 as yaml

---
 .../include/yaml-serializable-containers.h             | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
index a31b348..7ad7dc0 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
@@ -46,6 +46,9 @@
 #include <set>
 #include <vector>
 #include <sstream>
+#include <iomanip>
+#include <limits>
+#include <type_traits>
 #include <optional>
 #include <regex>
 
@@ -146,6 +149,13 @@ namespace Yaml {
             static void serialize(const T& v, Yaml::Node& node) {
                 std::stringstream ss;
                 ss << v;
+                if constexpr (std::is_floating_point<T>::value) {
+                    // Use the short form only if it reads back as the same number.
+                    if (Yaml::Node(ss.str()).As<T>() != v) {
+                        ss.str("");
+                        ss << std::setprecision(std::numeric_limits<T>::max_digits10) << v;
+                    }
+                }
                 node = ss.str();
             }
         };
-- 
2.43.0


From 06ceee5e03ba9cfce5bd9de8a53e82f38d39fd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:48 +0000
Subject: [PATCH 16/81] fix: yaml lists in brackets may be empty, long and have
 spaces around items

---
 .../include/yaml-serializable-containers.h         | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
index 7ad7dc0..4e66e0c 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
@@ -50,7 +50,6 @@
 #include <limits>
 #include <type_traits>
 #include <optional>
-#include <regex>
 
 namespace Yaml {
     namespace {
@@ -84,11 +83,14 @@ namespace Yaml {
                 return !std::isspace(ch) && ch != ']';
             }).base(), s.end());
             std::vector<std::string> result;
+            if (s.empty()) return result;
             std::stringstream ss(s);
             std::string word;
             while (!ss.eof()) {
                 std::getline(ss, word, delimeter);
-                result.push_back(word);
+                const size_t first = word.find_first_not_of(" \t");
+                const size_t last = word.find_last_not_of(" \t");
+                result.push_back(first == std::string::npos ? "" : word.substr(first, last - first + 1));
             }
             return result;
         }
@@ -97,7 +99,8 @@ namespace Yaml {
          * Checks if this string looks like a Yaml list or not.
         */
         bool looks_like_a_list(std::string s) {
-            return std::regex_match(s, std::regex("\\[[^\\[\\]\n]*\\]"));
+            return s.length() >= 2 && s.front() == '[' && s.back() == ']'
+                && s.find_first_of("[]\n", 1) == s.length() - 1;
         }
         
         /**
@@ -111,6 +114,11 @@ namespace Yaml {
             Yaml::Node sequence_node;
             if (node.IsScalar()) {
                 auto s = node.As<std::string>();
+                // A field without a value is an empty list.
+                if (s.empty()) {
+                    set_node_to_empty_sequence(sequence_node);
+                    return sequence_node;
+                }
                 if (!looks_like_a_list(s))
                     throw Yaml::ConfigurationException("Failed to parse string: `" + s + "`. Expected a list.");
                 for (auto token : tokenizer(node.As<std::string>(), ','))
-- 
2.43.0


From f284a91065cda98303df74838435e587bf998740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:59 +0000
Subject: [PATCH 17/81] fix: null pointers are saved as absent yaml fields

---
 .../include/yaml-serializable-containers.h                | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
index 4e66e0c..93eeb2c 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
@@ -251,6 +251,10 @@ namespace Yaml {
             }
 
             static void serialize(const std::shared_ptr<T>& v, Yaml::Node& node) {
+                if (v == nullptr) {
+                    node.Clear();
+                    return;
+                }
                 if constexpr (decltype(IsTypeDiscriminated<T>::check(*v))::value) {
                     T::serialize_as_derived(v.get(), node);
                 } else {
@@ -278,6 +282,10 @@ namespace Yaml {
             }
             
             static void serialize(const std::unique_ptr<T>& v, Yaml::Node& node) {
+                if (v == nullptr) {
+                    node.Clear();
+                    return;
+                }
                 if constexpr (decltype(IsTypeDiscriminated<T>::check(*v))::value) {
                     T::serialize_as_derived(v.get(), node);
                 } else {
-- 
2.43.0


From 0998b27a06efbd1b2937c1419e057753060e96d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:08 +0000
Subject: [PATCH 18/81] fix: strict yaml loading rejects values and lists where
 an object is expected

---
 .../src/Yaml-Serializable/include/configuration-validation.h  | 2 ++
 .../src/Yaml-Serializable/include/yaml-serializable.h         | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/configuration-validation.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/configuration-validation.h
index cd7a2d6..f96d56b 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/configuration-validation.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/configuration-validation.h
@@ -174,6 +174,8 @@ namespace Yaml {
             validate_subset_map(a, b);
         if (b.IsSequence())
             validate_subset_sequence(a, b);
+        if (b.IsScalar() && a.IsMap() && !b.As<std::string>().empty())
+            throw ConfigurationException("Input Yaml contains a value where deserialized object contains a dictionary.");
     }
 
 }
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h
index 11bdc4d..4e1497d 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h
@@ -77,7 +77,9 @@ namespace Yaml {
 
         template<typename... Types>
         inline void strict_validation(Node& node, Types&... args) {
-            from_raw(node, args...);
+            // Looking for fields may change the node, the comparison needs the original.
+            Node scratch = node;
+            from_raw(scratch, args...);
 
             Node re_serialized;
             to(re_serialized, args...);
-- 
2.43.0


From a663088c496bbe6b9e45d5ee27a582f51910762b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:54 +0000
Subject: [PATCH 19/81] fix: running out of memory while converting yaml values
 is reported

---
 apps/multiphysics/src/input/Yaml.hpp                            | 2 ++
 legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp         | 2 ++
 .../Yaml-Serializable/include/yaml-serializable-containers.h    | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/apps/multiphysics/src/input/Yaml.hpp b/apps/multiphysics/src/input/Yaml.hpp
index 64fdfe6..17b2441 100644
--- a/apps/multiphysics/src/input/Yaml.hpp
+++ b/apps/multiphysics/src/input/Yaml.hpp
@@ -71,6 +71,7 @@ namespace Yaml
             {
                 T type = T();
                 std::stringstream ss(data);
+                ss.exceptions(std::ios_base::badbit); // running out of memory is no value
                 ss >> type;
                 return type;
             }
@@ -79,6 +80,7 @@ namespace Yaml
             {
                 T type = T();
                 std::stringstream ss(data);
+                ss.exceptions(std::ios_base::badbit); // running out of memory is no value
                 ss >> type;
 
                 if(ss.fail())
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp b/legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp
index 64fdfe6..17b2441 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp
@@ -71,6 +71,7 @@ namespace Yaml
             {
                 T type = T();
                 std::stringstream ss(data);
+                ss.exceptions(std::ios_base::badbit); // running out of memory is no value
                 ss >> type;
                 return type;
             }
@@ -79,6 +80,7 @@ namespace Yaml
             {
                 T type = T();
                 std::stringstream ss(data);
+                ss.exceptions(std::ios_base::badbit); // running out of memory is no value
                 ss >> type;
 
                 if(ss.fail())
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
index 93eeb2c..76553c4 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
@@ -85,6 +85,7 @@ namespace Yaml {
             std::vector<std::string> result;
             if (s.empty()) return result;
             std::stringstream ss(s);
+            ss.exceptions(std::ios_base::badbit);
             std::string word;
             while (!ss.eof()) {
                 std::getline(ss, word, delimeter);
@@ -156,6 +157,7 @@ namespace Yaml {
             }
             static void serialize(const T& v, Yaml::Node& node) {
                 std::stringstream ss;
+                ss.exceptions(std::ios_base::badbit);
                 ss << v;
                 if constexpr (std::is_floating_point<T>::value) {
                     // Use the short form only if it reads back as the same number.
-- 
2.43.0


From d96df818680198068c82560d23fd62ab7774833b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:16 +0000
Subject: [PATCH 20/81] fix: EVPFFT command line rejects malformed and unknown
 file types and angle units

---
 .../EVPFFT/src/command_line_args.cpp          | 30 +++++++++++++++++--
 .../LS-EVPFFT-J2/src/command_line_args.cpp    | 30 +++++++++++++++++--
 .../LS-EVPFFT/src/command_line_args.cpp       | 30 +++++++++++++++++--
 .../LSNP-EVPFFT/src/command_line_args.cpp     | 30 +++++++++++++++++--
 4 files changed, 108 insertions(+), 12 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/command_line_args.cpp b/apps/micromechanics/EVPFFT/src/command_line_args.cpp
index 88e8e08..8272060 100644
--- a/apps/micromechanics/EVPFFT/src/command_line_args.cpp
+++ b/apps/micromechanics/EVPFFT/src/command_line_args.cpp
@@ -1,7 +1,23 @@
 #include "command_line_args.h"
 #include <getopt.h>
+#include <cerrno>
+#include <climits>
+#include <cstdlib>
 #include <iostream>
 
+// reads a whole argument as an integer; false if it is anything else
+static bool parse_int(const char *text, int &value)
+{
+    char *end = nullptr;
+    errno = 0;
+    const long number = strtol(text, &end, 10);
+    if (end == text or *end != '\0' or errno != 0 or number < INT_MIN or number > INT_MAX) {
+      return false;
+    }
+    value = static_cast<int>(number);
+    return true;
+}
+
 CommandLineArgs::CommandLineArgs()
 {
 }
@@ -33,7 +49,9 @@ void CommandLineArgs::parse_command_line(int argc, char *argv[])
           break;
 
         case 'm':
-          micro_filetype = atoi(optarg);
+          if (not parse_int(optarg, micro_filetype)) {
+            print_help();
+          }
           break;
 
         case 'e':
@@ -49,7 +67,9 @@ void CommandLineArgs::parse_command_line(int argc, char *argv[])
           break;
 
         case 'u':
-          EulerAnglesUnit = atoi(optarg);
+          if (not parse_int(optarg, EulerAnglesUnit)) {
+            print_help();
+          }
           break;
 
         case 'h': // -h or --help
@@ -75,11 +95,15 @@ void CommandLineArgs::check_cmd_args()
       print_help();
     }
 
+    if (micro_filetype < 0 or micro_filetype > 2) {
+      print_help();
+    }
+
     if (micro_filetype == 1) {
       if (EulerAnglesFullPath.size() == 0 or
           FeatureIdsFullPath.size() == 0 or
           PhaseIdsFullPath.size() == 0 or
-          EulerAnglesUnit == -1)
+          (EulerAnglesUnit != 0 and EulerAnglesUnit != 1))
       {
         print_help();
       }
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/command_line_args.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/command_line_args.cpp
index 88e8e08..8272060 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/command_line_args.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/command_line_args.cpp
@@ -1,7 +1,23 @@
 #include "command_line_args.h"
 #include <getopt.h>
+#include <cerrno>
+#include <climits>
+#include <cstdlib>
 #include <iostream>
 
+// reads a whole argument as an integer; false if it is anything else
+static bool parse_int(const char *text, int &value)
+{
+    char *end = nullptr;
+    errno = 0;
+    const long number = strtol(text, &end, 10);
+    if (end == text or *end != '\0' or errno != 0 or number < INT_MIN or number > INT_MAX) {
+      return false;
+    }
+    value = static_cast<int>(number);
+    return true;
+}
+
 CommandLineArgs::CommandLineArgs()
 {
 }
@@ -33,7 +49,9 @@ void CommandLineArgs::parse_command_line(int argc, char *argv[])
           break;
 
         case 'm':
-          micro_filetype = atoi(optarg);
+          if (not parse_int(optarg, micro_filetype)) {
+            print_help();
+          }
           break;
 
         case 'e':
@@ -49,7 +67,9 @@ void CommandLineArgs::parse_command_line(int argc, char *argv[])
           break;
 
         case 'u':
-          EulerAnglesUnit = atoi(optarg);
+          if (not parse_int(optarg, EulerAnglesUnit)) {
+            print_help();
+          }
           break;
 
         case 'h': // -h or --help
@@ -75,11 +95,15 @@ void CommandLineArgs::check_cmd_args()
       print_help();
     }
 
+    if (micro_filetype < 0 or micro_filetype > 2) {
+      print_help();
+    }
+
     if (micro_filetype == 1) {
       if (EulerAnglesFullPath.size() == 0 or
           FeatureIdsFullPath.size() == 0 or
           PhaseIdsFullPath.size() == 0 or
-          EulerAnglesUnit == -1)
+          (EulerAnglesUnit != 0 and EulerAnglesUnit != 1))
       {
         print_help();
       }
diff --git a/apps/micromechanics/LS-EVPFFT/src/command_line_args.cpp b/apps/micromechanics/LS-EVPFFT/src/command_line_args.cpp
index 88e8e08..8272060 100644
--- a/apps/micromechanics/LS-EVPFFT/src/command_line_args.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/command_line_args.cpp
@@ -1,7 +1,23 @@
 #include "command_line_args.h"
 #include <getopt.h>
+#include <cerrno>
+#include <climits>
+#include <cstdlib>
 #include <iostream>
 
+// reads a whole argument as an integer; false if it is anything else
+static bool parse_int(const char *text, int &value)
+{
+    char *end = nullptr;
+    errno = 0;
+    const long number = strtol(text, &end, 10);
+    if (end == text or *end != '\0' or errno != 0 or number < INT_MIN or number > INT_MAX) {
+      return false;
+    }
+    value = static_cast<int>(number);
+    return true;
+}
+
 CommandLineArgs::CommandLineArgs()
 {
 }
@@ -33,7 +49,9 @@ void CommandLineArgs::parse_command_line(int argc, char *argv[])
           break;
 
         case 'm':
-          micro_filetype = atoi(optarg);
+          if (not parse_int(optarg, micro_filetype)) {
+            print_help();
+          }
           break;
 
         case 'e':
@@ -49,7 +67,9 @@ void CommandLineArgs::parse_command_line(int argc, char *argv[])
           break;
 
         case 'u':
-          EulerAnglesUnit = atoi(optarg);
+          if (not parse_int(optarg, EulerAnglesUnit)) {
+            print_help();
+          }
           break;
 
         case 'h': // -h or --help
@@ -75,11 +95,15 @@ void CommandLineArgs::check_cmd_args()
       print_help();
     }
 
+    if (micro_filetype < 0 or micro_filetype > 2) {
+      print_help();
+    }
+
     if (micro_filetype == 1) {
       if (EulerAnglesFullPath.size() == 0 or
           FeatureIdsFullPath.size() == 0 or
           PhaseIdsFullPath.size() == 0 or
-          EulerAnglesUnit == -1)
+          (EulerAnglesUnit != 0 and EulerAnglesUnit != 1))
       {
         print_help();
       }
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/command_line_args.cpp b/apps/micromechanics/LSNP-EVPFFT/src/command_line_args.cpp
index 88e8e08..8272060 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/command_line_args.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/command_line_args.cpp
@@ -1,7 +1,23 @@
 #include "command_line_args.h"
 #include <getopt.h>
+#include <cerrno>
+#include <climits>
+#include <cstdlib>
 #include <iostream>
 
+// reads a whole argument as an integer; false if it is anything else
+static bool parse_int(const char *text, int &value)
+{
+    char *end = nullptr;
+    errno = 0;
+    const long number = strtol(text, &end, 10);
+    if (end == text or *end != '\0' or errno != 0 or number < INT_MIN or number > INT_MAX) {
+      return false;
+    }
+    value = static_cast<int>(number);
+    return true;
+}
+
 CommandLineArgs::CommandLineArgs()
 {
 }
@@ -33,7 +49,9 @@ void CommandLineArgs::parse_command_line(int argc, char *argv[])
           break;
 
         case 'm':
-          micro_filetype = atoi(optarg);
+          if (not parse_int(optarg, micro_filetype)) {
+            print_help();
+          }
           break;
 
         case 'e':
@@ -49,7 +67,9 @@ void CommandLineArgs::parse_command_line(int argc, char *argv[])
           break;
 
         case 'u':
-          EulerAnglesUnit = atoi(optarg);
+          if (not parse_int(optarg, EulerAnglesUnit)) {
+            print_help();
+          }
           break;
 
         case 'h': // -h or --help
@@ -75,11 +95,15 @@ void CommandLineArgs::check_cmd_args()
       print_help();
     }
 
+    if (micro_filetype < 0 or micro_filetype > 2) {
+      print_help();
+    }
+
     if (micro_filetype == 1) {
       if (EulerAnglesFullPath.size() == 0 or
           FeatureIdsFullPath.size() == 0 or
           PhaseIdsFullPath.size() == 0 or
-          EulerAnglesUnit == -1)
+          (EulerAnglesUnit != 0 and EulerAnglesUnit != 1))
       {
         print_help();
       }
-- 
2.43.0


From b12f2b53e6485d4a6a1f61487d9a7f34e1be1bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:41 +0000
Subject: [PATCH 21/81] fix: Xdmf grid writer reports failing opens, writes and
 closes and releases its file once

---
 .../EVPFFT/src/XdmfUniformGridWriter.cpp          | 15 ++++++++++++++-
 .../EVPFFT/src/XdmfUniformGridWriter.h            |  2 ++
 .../LS-EVPFFT-J2/src/XdmfUniformGridWriter.cpp    | 15 ++++++++++++++-
 .../LS-EVPFFT-J2/src/XdmfUniformGridWriter.h      |  2 ++
 .../LS-EVPFFT/src/XdmfUniformGridWriter.cpp       | 15 ++++++++++++++-
 .../LS-EVPFFT/src/XdmfUniformGridWriter.h         |  2 ++
 .../LSNP-EVPFFT/src/XdmfUniformGridWriter.cpp     | 15 ++++++++++++++-
 .../LSNP-EVPFFT/src/XdmfUniformGridWriter.h       |  2 ++
 8 files changed, 64 insertions(+), 4 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/XdmfUniformGridWriter.cpp b/apps/micromechanics/EVPFFT/src/XdmfUniformGridWriter.cpp
index 65d242a..24b14cb 100644
--- a/apps/micromechanics/EVPFFT/src/XdmfUniformGridWriter.cpp
+++ b/apps/micromechanics/EVPFFT/src/XdmfUniformGridWriter.cpp
@@ -1,4 +1,5 @@
 #include "XdmfUniformGridWriter.h"
+#include <string>
 
 XdmfUniformGridWriter::XdmfUniformGridWriter(int N1_, int N2_, int N3_)
   : N1 (N1_)
@@ -10,7 +11,11 @@ XdmfUniformGridWriter::XdmfUniformGridWriter(int N1_, int N2_, int N3_)
 
 void XdmfUniformGridWriter::open_file(const char* xdmf_filename)
 {
+ close_file();
  xdmf = fopen(xdmf_filename, "w");
+ if (xdmf == nullptr) {
+   throw std::runtime_error(std::string("cannot open ") + xdmf_filename + "\n");
+ }
 }
 
 void XdmfUniformGridWriter::write_header(const char* gridName)
@@ -50,10 +55,18 @@ void XdmfUniformGridWriter::write_footer()
 void XdmfUniformGridWriter::close_file()
 {
   if (xdmf != nullptr) {
-    fclose(xdmf);
+    bool failed = ferror(xdmf) != 0;
+    failed = fclose(xdmf) != 0 || failed;
+    xdmf = nullptr;
+    if (failed) {
+      throw std::runtime_error("the xdmf file could not be written.\n");
+    }
   } 
 }
 
 XdmfUniformGridWriter::~XdmfUniformGridWriter()
 {
+  if (xdmf != nullptr) {
+    fclose(xdmf);
+  }
 }
diff --git a/apps/micromechanics/EVPFFT/src/XdmfUniformGridWriter.h b/apps/micromechanics/EVPFFT/src/XdmfUniformGridWriter.h
index 713249b..f14f6df 100644
--- a/apps/micromechanics/EVPFFT/src/XdmfUniformGridWriter.h
+++ b/apps/micromechanics/EVPFFT/src/XdmfUniformGridWriter.h
@@ -14,6 +14,8 @@ struct XdmfUniformGridWriter
 
   XdmfUniformGridWriter(int N1_, int N2_, int N3_);
   ~XdmfUniformGridWriter();
+  XdmfUniformGridWriter(const XdmfUniformGridWriter&) = delete;
+  XdmfUniformGridWriter& operator=(const XdmfUniformGridWriter&) = delete;
   void open_file(const char* xdmf_filename);
   void write_header(const char* gridName);
   void write_attribute(const char* aName, const char* aType, const char* aNumberType,
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/XdmfUniformGridWriter.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/XdmfUniformGridWriter.cpp
index 65d242a..24b14cb 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/XdmfUniformGridWriter.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/XdmfUniformGridWriter.cpp
@@ -1,4 +1,5 @@
 #include "XdmfUniformGridWriter.h"
+#include <string>
 
 XdmfUniformGridWriter::XdmfUniformGridWriter(int N1_, int N2_, int N3_)
   : N1 (N1_)
@@ -10,7 +11,11 @@ XdmfUniformGridWriter::XdmfUniformGridWriter(int N1_, int N2_, int N3_)
 
 void XdmfUniformGridWriter::open_file(const char* xdmf_filename)
 {
+ close_file();
  xdmf = fopen(xdmf_filename, "w");
+ if (xdmf == nullptr) {
+   throw std::runtime_error(std::string("cannot open ") + xdmf_filename + "\n");
+ }
 }
 
 void XdmfUniformGridWriter::write_header(const char* gridName)
@@ -50,10 +55,18 @@ void XdmfUniformGridWriter::write_footer()
 void XdmfUniformGridWriter::close_file()
 {
   if (xdmf != nullptr) {
-    fclose(xdmf);
+    bool failed = ferror(xdmf) != 0;
+    failed = fclose(xdmf) != 0 || failed;
+    xdmf = nullptr;
+    if (failed) {
+      throw std::runtime_error("the xdmf file could not be written.\n");
+    }
   } 
 }
 
 XdmfUniformGridWriter::~XdmfUniformGridWriter()
 {
+  if (xdmf != nullptr) {
+    fclose(xdmf);
+  }
 }
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/XdmfUniformGridWriter.h b/apps/micromechanics/LS-EVPFFT-J2/src/XdmfUniformGridWriter.h
index 713249b..f14f6df 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/XdmfUniformGridWriter.h
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/XdmfUniformGridWriter.h
@@ -14,6 +14,8 @@ struct XdmfUniformGridWriter
 
   XdmfUniformGridWriter(int N1_, int N2_, int N3_);
   ~XdmfUniformGridWriter();
+  XdmfUniformGridWriter(const XdmfUniformGridWriter&) = delete;
+  XdmfUniformGridWriter& operator=(const XdmfUniformGridWriter&) = delete;
   void open_file(const char* xdmf_filename);
   void write_header(const char* gridName);
   void write_attribute(const char* aName, const char* aType, const char* aNumberType,
diff --git a/apps/micromechanics/LS-EVPFFT/src/XdmfUniformGridWriter.cpp b/apps/micromechanics/LS-EVPFFT/src/XdmfUniformGridWriter.cpp
index 65d242a..24b14cb 100644
--- a/apps/micromechanics/LS-EVPFFT/src/XdmfUniformGridWriter.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/XdmfUniformGridWriter.cpp
@@ -1,4 +1,5 @@
 #include "XdmfUniformGridWriter.h"
+#include <string>
 
 XdmfUniformGridWriter::XdmfUniformGridWriter(int N1_, int N2_, int N3_)
   : N1 (N1_)
@@ -10,7 +11,11 @@ XdmfUniformGridWriter::XdmfUniformGridWriter(int N1_, int N2_, int N3_)
 
 void XdmfUniformGridWriter::open_file(const char* xdmf_filename)
 {
+ close_file();
  xdmf = fopen(xdmf_filename, "w");
+ if (xdmf == nullptr) {
+   throw std::runtime_error(std::string("cannot open ") + xdmf_filename + "\n");
+ }
 }
 
 void XdmfUniformGridWriter::write_header(const char* gridName)
@@ -50,10 +55,18 @@ void XdmfUniformGridWriter::write_footer()
 void XdmfUniformGridWriter::close_file()
 {
   if (xdmf != nullptr) {
-    fclose(xdmf);
+    bool failed = ferror(xdmf) != 0;
+    failed = fclose(xdmf) != 0 || failed;
+    xdmf = nullptr;
+    if (failed) {
+      throw std::runtime_error("the xdmf file could not be written.\n");
+    }
   } 
 }
 
 XdmfUniformGridWriter::~XdmfUniformGridWriter()
 {
+  if (xdmf != nullptr) {
+    fclose(xdmf);
+  }
 }
diff --git a/apps/micromechanics/LS-EVPFFT/src/XdmfUniformGridWriter.h b/apps/micromechanics/LS-EVPFFT/src/XdmfUniformGridWriter.h
index 713249b..f14f6df 100644
--- a/apps/micromechanics/LS-EVPFFT/src/XdmfUniformGridWriter.h
+++ b/apps/micromechanics/LS-EVPFFT/src/XdmfUniformGridWriter.h
@@ -14,6 +14,8 @@ struct XdmfUniformGridWriter
 
   XdmfUniformGridWriter(int N1_, int N2_, int N3_);
   ~XdmfUniformGridWriter();
+  XdmfUniformGridWriter(const XdmfUniformGridWriter&) = delete;
+  XdmfUniformGridWriter& operator=(const XdmfUniformGridWriter&) = delete;
   void open_file(const char* xdmf_filename);
   void write_header(const char* gridName);
   void write_attribute(const char* aName, const char* aType, const char* aNumberType,
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/XdmfUniformGridWriter.cpp b/apps/micromechanics/LSNP-EVPFFT/src/XdmfUniformGridWriter.cpp
index 65d242a..24b14cb 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/XdmfUniformGridWriter.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/XdmfUniformGridWriter.cpp
@@ -1,4 +1,5 @@
 #include "XdmfUniformGridWriter.h"
+#include <string>
 
 XdmfUniformGridWriter::XdmfUniformGridWriter(int N1_, int N2_, int N3_)
   : N1 (N1_)
@@ -10,7 +11,11 @@ XdmfUniformGridWriter::XdmfUniformGridWriter(int N1_, int N2_, int N3_)
 
 void XdmfUniformGridWriter::open_file(const char* xdmf_filename)
 {
+ close_file();
  xdmf = fopen(xdmf_filename, "w");
+ if (xdmf == nullptr) {
+   throw std::runtime_error(std::string("cannot open ") + xdmf_filename + "\n");
+ }
 }
 
 void XdmfUniformGridWriter::write_header(const char* gridName)
@@ -50,10 +55,18 @@ void XdmfUniformGridWriter::write_footer()
 void XdmfUniformGridWriter::close_file()
 {
   if (xdmf != nullptr) {
-    fclose(xdmf);
+    bool failed = ferror(xdmf) != 0;
+    failed = fclose(xdmf) != 0 || failed;
+    xdmf = nullptr;
+    if (failed) {
+      throw std::runtime_error("the xdmf file could not be written.\n");
+    }
   } 
 }
 
 XdmfUniformGridWriter::~XdmfUniformGridWriter()
 {
+  if (xdmf != nullptr) {
+    fclose(xdmf);
+  }
 }
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/XdmfUniformGridWriter.h b/apps/micromechanics/LSNP-EVPFFT/src/XdmfUniformGridWriter.h
index 713249b..f14f6df 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/XdmfUniformGridWriter.h
+++ b/apps/micromechanics/LSNP-EVPFFT/src/XdmfUniformGridWriter.h
@@ -14,6 +14,8 @@ struct XdmfUniformGridWriter
 
   XdmfUniformGridWriter(int N1_, int N2_, int N3_);
   ~XdmfUniformGridWriter();
+  XdmfUniformGridWriter(const XdmfUniformGridWriter&) = delete;
+  XdmfUniformGridWriter& operator=(const XdmfUniformGridWriter&) = delete;
   void open_file(const char* xdmf_filename);
   void write_header(const char* gridName);
   void write_attribute(const char* aName, const char* aType, const char* aNumberType,
-- 
2.43.0


From 8f4a146c20e0c232ef93c84abad60ab0ab119741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:42 +0000
Subject: [PATCH 22/81] fix: Xdmf grid writer escapes names and file names in
 its XML

---
 .../EVPFFT/src/XdmfUniformGridWriter.cpp      | 22 ++++++++++++++++---
 .../src/XdmfUniformGridWriter.cpp             | 22 ++++++++++++++++---
 .../LS-EVPFFT/src/XdmfUniformGridWriter.cpp   | 22 ++++++++++++++++---
 .../LSNP-EVPFFT/src/XdmfUniformGridWriter.cpp | 22 ++++++++++++++++---
 4 files changed, 76 insertions(+), 12 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/XdmfUniformGridWriter.cpp b/apps/micromechanics/EVPFFT/src/XdmfUniformGridWriter.cpp
index 24b14cb..4df4dc1 100644
--- a/apps/micromechanics/EVPFFT/src/XdmfUniformGridWriter.cpp
+++ b/apps/micromechanics/EVPFFT/src/XdmfUniformGridWriter.cpp
@@ -1,6 +1,22 @@
 #include "XdmfUniformGridWriter.h"
 #include <string>
 
+// text between tags or inside an attribute value
+static std::string xml_text(const char* text)
+{
+    std::string out;
+    for (; *text != '\0'; ++text) {
+        switch (*text) {
+        case '&': out += "&amp;"; break;
+        case '<': out += "&lt;"; break;
+        case '>': out += "&gt;"; break;
+        case '"': out += "&quot;"; break;
+        default: out += *text; break;
+        }
+    }
+    return out;
+}
+
 XdmfUniformGridWriter::XdmfUniformGridWriter(int N1_, int N2_, int N3_)
   : N1 (N1_)
   , N2 (N2_)
@@ -25,7 +41,7 @@ void XdmfUniformGridWriter::write_header(const char* gridName)
     fprintf(xdmf, "<Xdmf xmlns:xi=\"http://www.w3.org/2003/XInclude\" Version=\"2.2\">\n");
 
     fprintf(xdmf, " <Domain>\n");
-    fprintf(xdmf, "   <Grid Name=\"%s\" GridType=\"Uniform\">\n", gridName);
+    fprintf(xdmf, "   <Grid Name=\"%s\" GridType=\"Uniform\">\n", xml_text(gridName).c_str());
     fprintf(xdmf, "     <Topology TopologyType=\"3DCoRectMesh\" Dimensions=\"%d %d %d \"></Topology>\n", N1+1, N2+1, N3+1);
     fprintf(xdmf, "       <Geometry Type=\"ORIGIN_DXDYDZ\">\n");
     fprintf(xdmf, "         <!-- Origin  Z, Y, X -->\n"); // comment
@@ -38,9 +54,9 @@ void XdmfUniformGridWriter::write_header(const char* gridName)
 void XdmfUniformGridWriter::write_attribute(const char* aName, const char* aType,
         const char* aNumberType, const char* aPrecision, const char* aLocation)
 {
-    fprintf(xdmf, "       <Attribute Name=\"%s\" AttributeType=\"%s\" Center=\"Cell\">\n", aName, aType);
+    fprintf(xdmf, "       <Attribute Name=\"%s\" AttributeType=\"%s\" Center=\"Cell\">\n", xml_text(aName).c_str(), aType);
     fprintf(xdmf, "         <DataItem Format=\"HDF\" Dimensions=\"%d %d %d\" NumberType=\"%s\" Precision=\"%s\" >\n", N1, N2, N3, aNumberType, aPrecision);
-    fprintf(xdmf, "           %s\n", aLocation);
+    fprintf(xdmf, "           %s\n", xml_text(aLocation).c_str());
     fprintf(xdmf, "         </DataItem>\n");
     fprintf(xdmf, "       </Attribute>\n");
 }
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/XdmfUniformGridWriter.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/XdmfUniformGridWriter.cpp
index 24b14cb..4df4dc1 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/XdmfUniformGridWriter.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/XdmfUniformGridWriter.cpp
@@ -1,6 +1,22 @@
 #include "XdmfUniformGridWriter.h"
 #include <string>
 
+// text between tags or inside an attribute value
+static std::string xml_text(const char* text)
+{
+    std::string out;
+    for (; *text != '\0'; ++text) {
+        switch (*text) {
+        case '&': out += "&amp;"; break;
+        case '<': out += "&lt;"; break;
+        case '>': out += "&gt;"; break;
+        case '"': out += "&quot;"; break;
+        default: out += *text; break;
+        }
+    }
+    return out;
+}
+
 XdmfUniformGridWriter::XdmfUniformGridWriter(int N1_, int N2_, int N3_)
   : N1 (N1_)
   , N2 (N2_)
@@ -25,7 +41,7 @@ void XdmfUniformGridWriter::write_header(const char* gridName)
     fprintf(xdmf, "<Xdmf xmlns:xi=\"http://www.w3.org/2003/XInclude\" Version=\"2.2\">\n");
 
     fprintf(xdmf, " <Domain>\n");
-    fprintf(xdmf, "   <Grid Name=\"%s\" GridType=\"Uniform\">\n", gridName);
+    fprintf(xdmf, "   <Grid Name=\"%s\" GridType=\"Uniform\">\n", xml_text(gridName).c_str());
     fprintf(xdmf, "     <Topology TopologyType=\"3DCoRectMesh\" Dimensions=\"%d %d %d \"></Topology>\n", N1+1, N2+1, N3+1);
     fprintf(xdmf, "       <Geometry Type=\"ORIGIN_DXDYDZ\">\n");
     fprintf(xdmf, "         <!-- Origin  Z, Y, X -->\n"); // comment
@@ -38,9 +54,9 @@ void XdmfUniformGridWriter::write_header(const char* gridName)
 void XdmfUniformGridWriter::write_attribute(const char* aName, const char* aType,
         const char* aNumberType, const char* aPrecision, const char* aLocation)
 {
-    fprintf(xdmf, "       <Attribute Name=\"%s\" AttributeType=\"%s\" Center=\"Cell\">\n", aName, aType);
+    fprintf(xdmf, "       <Attribute Name=\"%s\" AttributeType=\"%s\" Center=\"Cell\">\n", xml_text(aName).c_str(), aType);
     fprintf(xdmf, "         <DataItem Format=\"HDF\" Dimensions=\"%d %d %d\" NumberType=\"%s\" Precision=\"%s\" >\n", N1, N2, N3, aNumberType, aPrecision);
-    fprintf(xdmf, "           %s\n", aLocation);
+    fprintf(xdmf, "           %s\n", xml_text(aLocation).c_str());
     fprintf(xdmf, "         </DataItem>\n");
     fprintf(xdmf, "       </Attribute>\n");
 }
diff --git a/apps/micromechanics/LS-EVPFFT/src/XdmfUniformGridWriter.cpp b/apps/micromechanics/LS-EVPFFT/src/XdmfUniformGridWriter.cpp
index 24b14cb..4df4dc1 100644
--- a/apps/micromechanics/LS-EVPFFT/src/XdmfUniformGridWriter.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/XdmfUniformGridWriter.cpp
@@ -1,6 +1,22 @@
 #include "XdmfUniformGridWriter.h"
 #include <string>
 
+// text between tags or inside an attribute value
+static std::string xml_text(const char* text)
+{
+    std::string out;
+    for (; *text != '\0'; ++text) {
+        switch (*text) {
+        case '&': out += "&amp;"; break;
+        case '<': out += "&lt;"; break;
+        case '>': out += "&gt;"; break;
+        case '"': out += "&quot;"; break;
+        default: out += *text; break;
+        }
+    }
+    return out;
+}
+
 XdmfUniformGridWriter::XdmfUniformGridWriter(int N1_, int N2_, int N3_)
   : N1 (N1_)
   , N2 (N2_)
@@ -25,7 +41,7 @@ void XdmfUniformGridWriter::write_header(const char* gridName)
     fprintf(xdmf, "<Xdmf xmlns:xi=\"http://www.w3.org/2003/XInclude\" Version=\"2.2\">\n");
 
     fprintf(xdmf, " <Domain>\n");
-    fprintf(xdmf, "   <Grid Name=\"%s\" GridType=\"Uniform\">\n", gridName);
+    fprintf(xdmf, "   <Grid Name=\"%s\" GridType=\"Uniform\">\n", xml_text(gridName).c_str());
     fprintf(xdmf, "     <Topology TopologyType=\"3DCoRectMesh\" Dimensions=\"%d %d %d \"></Topology>\n", N1+1, N2+1, N3+1);
     fprintf(xdmf, "       <Geometry Type=\"ORIGIN_DXDYDZ\">\n");
     fprintf(xdmf, "         <!-- Origin  Z, Y, X -->\n"); // comment
@@ -38,9 +54,9 @@ void XdmfUniformGridWriter::write_header(const char* gridName)
 void XdmfUniformGridWriter::write_attribute(const char* aName, const char* aType,
         const char* aNumberType, const char* aPrecision, const char* aLocation)
 {
-    fprintf(xdmf, "       <Attribute Name=\"%s\" AttributeType=\"%s\" Center=\"Cell\">\n", aName, aType);
+    fprintf(xdmf, "       <Attribute Name=\"%s\" AttributeType=\"%s\" Center=\"Cell\">\n", xml_text(aName).c_str(), aType);
     fprintf(xdmf, "         <DataItem Format=\"HDF\" Dimensions=\"%d %d %d\" NumberType=\"%s\" Precision=\"%s\" >\n", N1, N2, N3, aNumberType, aPrecision);
-    fprintf(xdmf, "           %s\n", aLocation);
+    fprintf(xdmf, "           %s\n", xml_text(aLocation).c_str());
     fprintf(xdmf, "         </DataItem>\n");
     fprintf(xdmf, "       </Attribute>\n");
 }
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/XdmfUniformGridWriter.cpp b/apps/micromechanics/LSNP-EVPFFT/src/XdmfUniformGridWriter.cpp
index 24b14cb..4df4dc1 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/XdmfUniformGridWriter.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/XdmfUniformGridWriter.cpp
@@ -1,6 +1,22 @@
 #include "XdmfUniformGridWriter.h"
 #include <string>
 
+// text between tags or inside an attribute value
+static std::string xml_text(const char* text)
+{
+    std::string out;
+    for (; *text != '\0'; ++text) {
+        switch (*text) {
+        case '&': out += "&amp;"; break;
+        case '<': out += "&lt;"; break;
+        case '>': out += "&gt;"; break;
+        case '"': out += "&quot;"; break;
+        default: out += *text; break;
+        }
+    }
+    return out;
+}
+
 XdmfUniformGridWriter::XdmfUniformGridWriter(int N1_, int N2_, int N3_)
   : N1 (N1_)
   , N2 (N2_)
@@ -25,7 +41,7 @@ void XdmfUniformGridWriter::write_header(const char* gridName)
     fprintf(xdmf, "<Xdmf xmlns:xi=\"http://www.w3.org/2003/XInclude\" Version=\"2.2\">\n");
 
     fprintf(xdmf, " <Domain>\n");
-    fprintf(xdmf, "   <Grid Name=\"%s\" GridType=\"Uniform\">\n", gridName);
+    fprintf(xdmf, "   <Grid Name=\"%s\" GridType=\"Uniform\">\n", xml_text(gridName).c_str());
     fprintf(xdmf, "     <Topology TopologyType=\"3DCoRectMesh\" Dimensions=\"%d %d %d \"></Topology>\n", N1+1, N2+1, N3+1);
     fprintf(xdmf, "       <Geometry Type=\"ORIGIN_DXDYDZ\">\n");
     fprintf(xdmf, "         <!-- Origin  Z, Y, X -->\n"); // comment
@@ -38,9 +54,9 @@ void XdmfUniformGridWriter::write_header(const char* gridName)
 void XdmfUniformGridWriter::write_attribute(const char* aName, const char* aType,
         const char* aNumberType, const char* aPrecision, const char* aLocation)
 {
-    fprintf(xdmf, "       <Attribute Name=\"%s\" AttributeType=\"%s\" Center=\"Cell\">\n", aName, aType);
+    fprintf(xdmf, "       <Attribute Name=\"%s\" AttributeType=\"%s\" Center=\"Cell\">\n", xml_text(aName).c_str(), aType);
     fprintf(xdmf, "         <DataItem Format=\"HDF\" Dimensions=\"%d %d %d\" NumberType=\"%s\" Precision=\"%s\" >\n", N1, N2, N3, aNumberType, aPrecision);
-    fprintf(xdmf, "           %s\n", aLocation);
+    fprintf(xdmf, "           %s\n", xml_text(aLocation).c_str());
     fprintf(xdmf, "         </DataItem>\n");
     fprintf(xdmf, "       </Attribute>\n");
 }
-- 
2.43.0


From 18c2dec1114831cd9095e2365913d213e6fc436d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 23/81] fix: write every node's own z coordinate to the node
 coords output field

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index a6d9194..327e33c 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -4092,7 +4092,7 @@ public:
                             node_vector_fields(node_coord_id, node_gid, 2) = 0.0;
                         }
                         else{
-                            node_vector_fields(node_coord_id, node_coord_id, 2) = Node.coords(node_gid, 2);
+                            node_vector_fields(node_coord_id, node_gid, 2) = Node.coords(node_gid, 2);
                         } // end if
 
                     }); // end parallel for
-- 
2.43.0


From c5002fbbba1a9708959e9aaaa6a89856caff1ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 24/81] fix: paint nodal fields node by node, so that elements
 do not race to fill a shared node

---
 .../src/common/src/region_fill.cpp            | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 19a27d5..2580bcd 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -548,17 +548,29 @@ void fill_regions(
 
             } // end loop over gauss points
 
+        } // loop over the fills in this elem
+    }); // end FOR_ALL elem loop
+    Kokkos::fence();
 
-            // --- painting nodal variables ---  
 
-            // loop over the nodes of this element and apply velocity
-            for (size_t node_lid = 0; node_lid < mesh.num_nodes_in_elem; node_lid++) {
-                
-                // get the mesh node index
-                size_t node_gid = mesh.nodes_in_elem(elem_gid, node_lid);
+    //---------
+    // parallel loop over nodes in the mesh and paint the nodal variables
+    // Elements share nodes, so each node visits the fills of its elements in order;
+    // where several fills paint a node, the last one in that order is kept
+    //---------
+    FOR_ALL(node_gid, 0, mesh.num_nodes, {
 
-                // node coords(node_gid,dim)
-                ViewCArrayKokkos <double> a_node_coords(&node_coords(node_gid,0), 3);
+        // node coords(node_gid,dim)
+        ViewCArrayKokkos <double> a_node_coords(&node_coords(node_gid,0), mesh.num_dims);
+
+        for (size_t elem_lid = 0; elem_lid < mesh.num_corners_in_node(node_gid); elem_lid++) { // NOTE: num_corners_in_node = num_elems_in_node
+
+            size_t elem_gid = mesh.elems_in_node(node_gid, elem_lid);
+
+            for(size_t bin=0; bin<elem_num_mats_saved_in_elem(elem_gid); bin++){
+
+                // get the region fill id
+                size_t fill_id = elem_fill_ids(elem_gid, bin);
 
                 // paint the velocity onto the nodes of the mesh
                 if(node_vel.size()>0){
@@ -586,9 +598,9 @@ void fill_regions(
                                  region_fills(fill_id).temperature_field);
                 }
 
-            } // end loop over the nodes in elem
+            } // end loop over the fills in this elem
 
-        } // loop over the fills in this elem
+        } // end loop over the elems around the node
     }); // end FOR_ALL node loop
     Kokkos::fence();
 
-- 
2.43.0


From 5268e01538294a83607dc1b525d04afab9918602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 25/81] fix: spherical velocity on a 2D mesh reads only the
 coordinates of its own node

---
 apps/multiphysics/src/common/src/region_fill.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 2580bcd..03780c3 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -1912,7 +1912,7 @@ void paint_vector(const DCArrayKokkos<double>& vector_field,
                     dir[2] = 0.0;
                     double radius_val = 0.0;
 
-                    for (int dim = 0; dim < 3; dim++) {
+                    for (int dim = 0; dim < num_dims; dim++) {
                         dir[dim]    = mesh_coords(dim);
                         radius_val += mesh_coords(dim) * mesh_coords(dim);
                     } // end for
-- 
2.43.0


From c75468e408866d0598522763dd7aa4a3e16d7971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 26/81] fix: compare a fill with the materials already in the
 element, and allow replacing one in a full element

---
 apps/multiphysics/src/common/src/region_fill.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 03780c3..3b0ae28 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -1432,12 +1432,6 @@ void append_fills_in_elem(const DCArrayKokkos <double>& elem_volfracs,
     // the number of materials saved to this element, initialized to 0 at start of code
     size_t fill_storage_lid = num_fills_saved_in_elem(elem_gid);
 
-    // check on exceeding 3 materials per element
-    if (num_fills_saved_in_elem(elem_gid) > max_num_mats_per_elem-1){
-        Kokkos::abort("ERROR: exceeded max number of materials in an element when painting regions on the mesh \n Set max_num_mats_per_element to a larger value under multimaterial_options \n");
-    } // end if check
-
-
     // material id assigned to this fill
     const size_t mat_id = region_fills(fill_id).material_id;
 
@@ -1447,7 +1441,7 @@ void append_fills_in_elem(const DCArrayKokkos <double>& elem_volfracs,
     for (size_t a_fill=0; a_fill < num_fills_saved_in_elem(elem_gid); a_fill++){
 
         // get the mat_id in this fill
-        size_t a_mat_id = region_fills(a_fill).material_id;
+        size_t a_mat_id = region_fills(elem_fill_ids(elem_gid, a_fill)).material_id;
         if(mat_id == a_mat_id){
             // overwrite the existing material lid with new fill instructions
             fill_storage_lid = a_fill;  
@@ -1460,6 +1454,11 @@ void append_fills_in_elem(const DCArrayKokkos <double>& elem_volfracs,
     // There will now be at least 1 material so we want
     // num_fills_saved_in_elem >= 1, and it is intialized at 0 
     if (check_mat_exists == false){
+        // check on exceeding the max number of materials per element
+        if (num_fills_saved_in_elem(elem_gid) > max_num_mats_per_elem-1){
+            Kokkos::abort("ERROR: exceeded max number of materials in an element when painting regions on the mesh \n Set max_num_mats_per_element to a larger value under multimaterial_options \n");
+        } // end if check
+
         // we are adding a new material, so increment the number of saved
         num_fills_saved_in_elem(elem_gid) += 1;
     } // end check if material is a new one
-- 
2.43.0


From bfb9a3676bbfa32c13e5e42f43e8abd58ab1e2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 27/81] fix: measure radial and spherical volume fractions from
 their origin

---
 apps/multiphysics/src/common/src/region_fill.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 3b0ae28..18de22e 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -1521,7 +1521,7 @@ double get_region_scalar(const ViewCArrayKokkos <double> mesh_coords,
 
                 for (int dim = 0; dim < 2; dim++) {
                     dir[dim]    = (mesh_coords(dim) - orig[dim]);
-                    radius_val += mesh_coords(dim) * mesh_coords(dim);
+                    radius_val += dir[dim] * dir[dim];
                 } // end for
                 radius_val -= scalar; 
                 radius_val = sqrt(radius_val);
@@ -1542,7 +1542,7 @@ double get_region_scalar(const ViewCArrayKokkos <double> mesh_coords,
 
                 for (int dim = 0; dim < 3; dim++) {
                     dir[dim]    = (mesh_coords(dim) - orig[dim]);
-                    radius_val += mesh_coords(dim) * mesh_coords(dim);
+                    radius_val += dir[dim] * dir[dim];
                 } // end for
                 radius_val -= scalar; 
                 radius_val = sqrt(radius_val);
-- 
2.43.0


From a465090f187136ed4d4a619e9c0cc561d6e108b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 28/81] fix: thermal solver addresses temperature gradient and
 specific heat by material point, not by element

---
 .../Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp  |  1 +
 .../src/Solvers/SGTM_solver_3D/src/heat_flux.cpp       |  6 +++---
 .../src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp    |  1 +
 .../Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp    | 10 +++++++++-
 apps/multiphysics/src/common/src/region_fill.cpp       |  1 +
 5 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp
index 66a5bec..5af320e 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp
@@ -283,6 +283,7 @@ public:
             const DCArrayKokkos<double>& node_mass,
             const DCArrayKokkos<double>& node_q_transfer,
             const DRaggedRightArrayKokkos<double>& mat_pt_specific_heat,
+            const MeshtoMaterialMap_t& MeshtoMaterialMaps,
             const double rk_alpha,
             const double dt) const;
 
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp
index cb896b2..e779417 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp
@@ -153,9 +153,9 @@ void SGTM3D::get_heat_flux(
         }
 
         // ---- Save the temperature gradient to the material point for writing out ---- //
-        MaterialPoints_temp_grad(mat_id, elem_gid, 0) = temp_grad(0);
-        MaterialPoints_temp_grad(mat_id, elem_gid, 1) = temp_grad(1);
-        MaterialPoints_temp_grad(mat_id, elem_gid, 2) = temp_grad(2);
+        MaterialPoints_temp_grad(mat_id, mat_point_sid, 0) = temp_grad(0);
+        MaterialPoints_temp_grad(mat_id, mat_point_sid, 1) = temp_grad(1);
+        MaterialPoints_temp_grad(mat_id, mat_point_sid, 2) = temp_grad(2);
 
         // ---- Calculate the heat flux at the material point ---- //
         double conductivity = MaterialPoints_conductivity(mat_id, mat_point_sid); // NOTE: Consider moving this to properties and evaluate instead of save
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
index f86663e..0f84db9 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
@@ -327,6 +327,7 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
                 State.node.mass,
                 State.node.q_transfer,
                 State.MaterialPoints.specific_heat, // Note: Need to make this a node field, and calculate in the material loop
+                State.MeshtoMaterialMaps,
                 rk_alpha,
                 dt);
 
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp
index 7a1a626..e4e40b6 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp
@@ -46,6 +46,8 @@ ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 /// \param The temperature at the nodes
 /// \param The mass at the nodes
 /// \param The heat flux at the nodes
+/// \param The specific heat at the material points
+/// \param The maps from the mesh to the materials
 /// \param The RK integration alpha value
 /// \param Time step size
 ///
@@ -58,6 +60,7 @@ void SGTM3D::update_temperature(
     const DCArrayKokkos<double>& node_mass,
     const DCArrayKokkos<double>& node_q_transfer,
     const DRaggedRightArrayKokkos<double>& mat_pt_specific_heat,
+    const MeshtoMaterialMap_t& MeshtoMaterialMaps,
     const double rk_alpha,
     const double dt) const
 {
@@ -77,7 +80,12 @@ void SGTM3D::update_temperature(
         double Cp = 0.0;
         for(int elem_lid = 0; elem_lid < mesh.num_corners_in_node(node_gid); elem_lid++){ // NOTE: num_corners_in_node = num_elems_in_node
             size_t elem_gid = mesh.elems_in_node(node_gid, elem_lid);
-            Cp += mat_pt_specific_heat(0,elem_gid)/mesh.num_corners_in_node(node_gid);
+            size_t num_mats_in_elem = MeshtoMaterialMaps.num_mats_in_elem(elem_gid);
+            for(size_t a_mat_in_elem = 0; a_mat_in_elem < num_mats_in_elem; a_mat_in_elem++){
+                size_t mat_id = MeshtoMaterialMaps.mats_in_elem(elem_gid, a_mat_in_elem);
+                size_t mat_point_sid = MeshtoMaterialMaps.mat_elems_in_elem(elem_gid, a_mat_in_elem);
+                Cp += mat_pt_specific_heat(mat_id, mat_point_sid)/(mesh.num_corners_in_node(node_gid)*num_mats_in_elem);
+            }
         }
 
         // std::cout << "Cp*mass = " << Cp * node_mass(node_gid) << std::endl;
diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 18de22e..45271e8 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -860,6 +860,7 @@ void material_state_setup(SimulationParameters_t& SimulationParamaters,
         } // end loop over materials in this element
     } // end serial for loop over all elements
     State.MaterialToMeshMaps.elem_in_mat_elem.update_device();
+    State.MeshtoMaterialMaps.mat_elems_in_elem.update_device();
 
 
     // copy the state to the device
-- 
2.43.0


From 920316859b6b0c239d67b71ba4fb779dc7d86378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 29/81] fix: copy the initial level set field to the device

---
 apps/multiphysics/src/common/src/region_fill.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 45271e8..5b7c60f 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -898,6 +898,10 @@ void material_state_setup(SimulationParameters_t& SimulationParamaters,
         State.MaterialPoints.specific_heat.update_device();
     }
 
+    if (State.GaussPoints.level_set.size()>0){
+        State.GaussPoints.level_set.update_device();
+    }
+
     // -----
     // add other state here
 
-- 
2.43.0


From 565b2f40d3e9e9897f11b3a20fd61c5288d7d563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 30/81] fix: allocate the extensive internal energy of a fill
 when specific energies came first

---
 apps/multiphysics/src/common/include/state.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/common/include/state.hpp b/apps/multiphysics/src/common/include/state.hpp
index e2d8e33..3ab7c63 100644
--- a/apps/multiphysics/src/common/include/state.hpp
+++ b/apps/multiphysics/src/common/include/state.hpp
@@ -123,7 +123,7 @@ struct fillGaussState_t
                     }
                     break;
                 case fill_gauss_state::internal_energy:
-                    if (sie.size() == 0) this->ie = DCArrayKokkos<double>(num_gauss_points, max_mats_in_elem, "fill_gauss_point_ie");
+                    if (ie.size() == 0) this->ie = DCArrayKokkos<double>(num_gauss_points, max_mats_in_elem, "fill_gauss_point_ie");
                     if (use_sie.size() == 0){ 
                         this->use_sie = DCArrayKokkos<bool>(num_gauss_points, max_mats_in_elem, "fill_gauss_point_use_sie");
                         use_sie.set_values(false);
-- 
2.43.0


From 9887eb5ae60e45b350f743cfed616bff5f393e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 31/81] fix: read every value of a voxel file, and stop with an
 error when it is incomplete

---
 .../src/common/src/region_fill.cpp            | 129 ++++++------------
 1 file changed, 41 insertions(+), 88 deletions(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 5b7c60f..276725a 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -1006,10 +1006,10 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
             found = true;
         } // end if
 
-        if (i > 1000)
+        if (found == false && (!in || i > 1000))
         {
             printf("ERROR: Failed to find POINTS \n");
-            break;
+            throw std::runtime_error("**** The voxel file is incomplete ****");
         } // end if
 
         i++;
@@ -1023,7 +1023,6 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
 
     while (found == false) {
         std::string str;
-        std::string str0;
         std::string delimiter = " ";
         std::getline(in, str);
         std::vector<std::string> v = split(str, delimiter);
@@ -1031,31 +1030,21 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
         // looking for the following text:
         if (v[0] == "X_COORDINATES")
         {
-            size_t num_saved = 0;
-
-            while (num_saved < num_points_i - 1) {
-                // get next line
-                std::getline(in, str0);
-
-                // remove starting and trailing spaces
-                str = trim(str0);
-                std::vector<std::string> v_coords = split(str, delimiter);
-
-                // loop over the contents of the vector v_coords
-                for (size_t this_point = 0; this_point < v_coords.size(); this_point++)
-                {
-                    pt_coords_x(num_saved) = scale_x*std::stod(v_coords[this_point]);
-                    num_saved++;
-                } // end for
-            } // end while
+            // the values can be spread over any number of lines
+            for (size_t this_point = 0; this_point < num_points_i; this_point++) {
+                if (!(in >> token)) {
+                    throw std::runtime_error("**** The voxel file ends before all of its coordinates ****");
+                }
+                pt_coords_x(this_point) = scale_x*std::stod(token);
+            } // end for
 
             found = true;
         } // end if
 
-        if (i > 1000)
+        if (found == false && (!in || i > 1000))
         {
             printf("ERROR: Failed to find X_COORDINATES \n");
-            break;
+            throw std::runtime_error("**** The voxel file is incomplete ****");
         } // end if
 
         i++;
@@ -1064,7 +1053,6 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
 
     while (found == false) {
         std::string str;
-        std::string str0;
         std::string delimiter = " ";
         std::getline(in, str);
         std::vector<std::string> v = split(str, delimiter);
@@ -1072,31 +1060,21 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
         // looking for the following text:
         if (v[0] == "Y_COORDINATES")
         {
-            size_t num_saved = 0;
-
-            while (num_saved < num_points_j - 1) {
-                // get next line
-                std::getline(in, str0);
-
-                // remove starting and trailing spaces
-                str = trim(str0);
-                std::vector<std::string> v_coords = split(str, delimiter);
-
-                // loop over the contents of the vector v_coords
-                for (size_t this_point = 0; this_point < v_coords.size(); this_point++)
-                {
-                    pt_coords_y(num_saved) = scale_y*std::stod(v_coords[this_point]);
-                    num_saved++;
-                } // end for
-            } // end while
+            // the values can be spread over any number of lines
+            for (size_t this_point = 0; this_point < num_points_j; this_point++) {
+                if (!(in >> token)) {
+                    throw std::runtime_error("**** The voxel file ends before all of its coordinates ****");
+                }
+                pt_coords_y(this_point) = scale_y*std::stod(token);
+            } // end for
 
             found = true;
         } // end if
 
-        if (i > 1000)
+        if (found == false && (!in || i > 1000))
         {
             printf("ERROR: Failed to find Y_COORDINATES \n");
-            break;
+            throw std::runtime_error("**** The voxel file is incomplete ****");
         } // end if
 
         i++;
@@ -1105,7 +1083,6 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
 
     while (found == false) {
         std::string str;
-        std::string str0;
         std::string delimiter = " ";
         std::getline(in, str);
         std::vector<std::string> v = split(str, delimiter);
@@ -1113,31 +1090,21 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
         // looking for the following text:
         if (v[0] == "Z_COORDINATES")
         {
-            size_t num_saved = 0;
-
-            while (num_saved < num_points_k - 1) {
-                // get next line
-                std::getline(in, str0);
-
-                // remove starting and trailing spaces
-                str = trim(str0);
-                std::vector<std::string> v_coords = split(str, delimiter);
-
-                // loop over the contents of the vector v_coords
-                for (size_t this_point = 0; this_point < v_coords.size(); this_point++)
-                {
-                    pt_coords_z(num_saved) = scale_z*std::stod(v_coords[this_point]);
-                    num_saved++;
-                } // end for
-            } // end while
+            // the values can be spread over any number of lines
+            for (size_t this_point = 0; this_point < num_points_k; this_point++) {
+                if (!(in >> token)) {
+                    throw std::runtime_error("**** The voxel file ends before all of its coordinates ****");
+                }
+                pt_coords_z(this_point) = scale_z*std::stod(token);
+            } // end for
 
             found = true;
         } // end if
 
-        if (i > 1000)
+        if (found == false && (!in || i > 1000))
         {
             printf("ERROR: Failed to find Z_COORDINATES \n");
-            break;
+            throw std::runtime_error("**** The voxel file is incomplete ****");
         } // end if
 
         i++;
@@ -1183,10 +1150,10 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
             found = true;
         } // end if
 
-        if (i > 1000)
+        if (found == false && (!in || i > 1000))
         {
             printf("ERROR: Failed to find CELL_DATA \n");
-            break;
+            throw std::runtime_error("**** The voxel file is incomplete ****");
         } // end if
 
         i++;
@@ -1199,8 +1166,6 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
     // reading the cell data
     while (found == false) {
         std::string str;
-        std::string str0;
-
         std::string delimiter = " ";
         std::getline(in, str);
         std::vector<std::string> v = split(str, delimiter);
@@ -1208,34 +1173,22 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
         // looking for the following text:
         if (v[0] == "LOOKUP_TABLE")
         {
-            size_t num_saved = 0;
-
-            while (num_saved < num_elems - 1) {
-                // get next line
-                std::getline(in, str0);
-
-                // remove starting and trailing spaces
-                str = trim(str0);
-                std::vector<std::string> v_values = split(str, delimiter);
-
-                // loop over the contents of the vector v_coords
-                for (size_t this_elem = 0; this_elem < v_values.size(); this_elem++)
-                {
-                    // save integers (0 or 1) to host side
-                    elem_values.host(num_saved) = std::stoi(v_values[this_elem]);
-                    num_saved++;
-                } // end for
-
-                // printf(" done with one row of data \n");
-            } // end while
+            // the values can be spread over any number of lines
+            for (size_t this_elem = 0; this_elem < num_elems; this_elem++) {
+                if (!(in >> token)) {
+                    throw std::runtime_error("**** The voxel file ends before all of its cell values ****");
+                }
+                // save integers (0 or 1) to host side
+                elem_values.host(this_elem) = std::stoi(token);
+            } // end for
 
             found = true;
         } // end if
 
-        if (i > 1000)
+        if (found == false && (!in || i > 1000))
         {
             printf("ERROR: Failed to find LOOKUP_TABLE data \n");
-            break;
+            throw std::runtime_error("**** The voxel file is incomplete ****");
         } // end if
 
         i++;
-- 
2.43.0


From 02e2d0fdee7b5fdf0ae69189a628d525eac85339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 32/81] fix: take the voxel that contains the element (spacing
 of n cells instead of n-1, index truncated)

---
 apps/multiphysics/src/common/src/region_fill.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 276725a..92db473 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -1116,10 +1116,10 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
     num_elems_j = num_points_j - 1;
     num_elems_k = num_points_k - 1;
 
-    // center to center distance between first and last elem along each edge
-    double Lx = (pt_coords_x(num_points_i - 2) - pt_coords_x(0));
-    double Ly = (pt_coords_y(num_points_j - 2) - pt_coords_y(0));
-    double Lz = (pt_coords_z(num_points_k - 2) - pt_coords_z(0));
+    // length of the voxel mesh along each edge
+    double Lx = (pt_coords_x(num_points_i - 1) - pt_coords_x(0));
+    double Ly = (pt_coords_y(num_points_j - 1) - pt_coords_y(0));
+    double Lz = (pt_coords_z(num_points_k - 1) - pt_coords_z(0));
 
     // spacing between elems
     dx = Lx / ((double) num_elems_i);
@@ -1312,9 +1312,9 @@ size_t fill_geometric_region(const swage::Mesh& mesh,
                 double j0_real = (mesh_coords(1) - orig_y - region_fills(f_id).origin[1]) / (voxel_dy);
                 double k0_real = (mesh_coords(2) - orig_z - region_fills(f_id).origin[2]) / (voxel_dz);
 
-                int i0 = (int)i0_real;
-                int j0 = (int)j0_real;
-                int k0 = (int)k0_real;
+                int i0 = (int)floor(i0_real + 0.5);
+                int j0 = (int)floor(j0_real + 0.5);
+                int k0 = (int)floor(k0_real + 0.5);
 
                 // look for the closest element in the voxel mesh
                 int elem_id0 = get_id_device(i0, j0, k0, voxel_num_i, voxel_num_j);
-- 
2.43.0


From 0f3dd58efb6b1d8e00c4a1803814aeec1f8a2bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 33/81] fix: the last angle of a polar mesh is the one
 requested, so an ending angle of 90 is not refused

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index 327e33c..0530f15 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -1511,7 +1511,8 @@ public:
                 int node_gid = get_id(i, j, 0, num_points_i, num_points_j);
 
                 double r_i     = inner_radius + (double)i * dx;
-                double theta_j = start_angle + (double)j * dy;
+                // the last angle is the one requested, free of rounding (an ending angle of 90 gives no negative x)
+                double theta_j = (j == num_elems_j) ? end_angle : start_angle + (double)j * dy;
 
                 // store the point coordinates
                 node.coords.host(node_gid, 0) = origin[0] + r_i * cos(theta_j);
-- 
2.43.0


From f18bc96de2b140d009a681fc6f71150b36572d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:19 +0000
Subject: [PATCH 34/81] fix: velocity boundary conditions set the velocity
 along the given direction, whatever its sign and length

---
 .../velocity/piston_velocity_bc.hpp                    | 10 ++++++++--
 .../velocity/reflected_velocity_bc.hpp                 | 10 ++++++++--
 .../velocity/time_varying_velocity_bc.hpp              | 10 ++++++++--
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/apps/multiphysics/src/boundary_conditions/velocity/piston_velocity_bc.hpp b/apps/multiphysics/src/boundary_conditions/velocity/piston_velocity_bc.hpp
index 54b0e39..42b5534 100644
--- a/apps/multiphysics/src/boundary_conditions/velocity/piston_velocity_bc.hpp
+++ b/apps/multiphysics/src/boundary_conditions/velocity/piston_velocity_bc.hpp
@@ -116,10 +116,16 @@ static void velocity(const swage::Mesh& mesh,
         } // will make sure it's a unit vector
         mag = sqrt(mag);
 
+        // the component of the velocity in the specified direction
+        double vel_dot_dir = 0.0;
+        for (size_t dim = 0; dim<mesh.num_dims; dim++){
+            vel_dot_dir += node_vel(bdy_node_gid, dim) * (vel_bc_global_vars(bdy_set,dim)/mag);
+        }
+
         for (size_t dim = 0; dim<mesh.num_dims; dim++){
             // remove the velocity in the specified direction
             //  direction normal = vel_bc_global_vars(bdy_set,dim)/mag
-            node_vel(bdy_node_gid, dim) -= node_vel(bdy_node_gid, dim) * (vel_bc_global_vars(bdy_set,dim)/mag);
+            node_vel(bdy_node_gid, dim) -= vel_dot_dir * (vel_bc_global_vars(bdy_set,dim)/mag);
 
             // add the desired velocity in the specified direction
             node_vel(bdy_node_gid, dim) += vel * (vel_bc_global_vars(bdy_set,dim)/mag);
@@ -131,4 +137,4 @@ static void velocity(const swage::Mesh& mesh,
 }     // end func
 } // end namespace
 
-#endif // end Header Guard
\ No newline at end of file
+#endif // end Header Guard
\ No newline at end of file
diff --git a/apps/multiphysics/src/boundary_conditions/velocity/reflected_velocity_bc.hpp b/apps/multiphysics/src/boundary_conditions/velocity/reflected_velocity_bc.hpp
index 5657d8a..5f05f13 100644
--- a/apps/multiphysics/src/boundary_conditions/velocity/reflected_velocity_bc.hpp
+++ b/apps/multiphysics/src/boundary_conditions/velocity/reflected_velocity_bc.hpp
@@ -75,13 +75,19 @@ static void velocity(const swage::Mesh& mesh,
         mag += vel_bc_global_vars(bdy_set,dim)*vel_bc_global_vars(bdy_set,dim);
     } // will make sure it's a unit vector
 
+    // the component of the velocity in the specified direction
+    double vel_dot_dir = 0.0;
+    for (size_t dim = 0; dim<mesh.num_dims; dim++){
+        vel_dot_dir += node_vel(bdy_node_gid, dim)*vel_bc_global_vars(bdy_set,dim);
+    }
+
     // Remove the velocity in the specified direction
     for (size_t dim = 0; dim<mesh.num_dims; dim++){
-        node_vel(bdy_node_gid, dim) -= node_vel(bdy_node_gid, dim)*vel_bc_global_vars(bdy_set,dim)/mag;
+        node_vel(bdy_node_gid, dim) -= vel_dot_dir*vel_bc_global_vars(bdy_set,dim)/mag;
     }
 
     return;
 } // end func
 } // end namespace
 
-#endif // end Header Guard
\ No newline at end of file
+#endif // end Header Guard
\ No newline at end of file
diff --git a/apps/multiphysics/src/boundary_conditions/velocity/time_varying_velocity_bc.hpp b/apps/multiphysics/src/boundary_conditions/velocity/time_varying_velocity_bc.hpp
index 50dd6e1..11a509f 100644
--- a/apps/multiphysics/src/boundary_conditions/velocity/time_varying_velocity_bc.hpp
+++ b/apps/multiphysics/src/boundary_conditions/velocity/time_varying_velocity_bc.hpp
@@ -114,9 +114,15 @@ static void velocity(const swage::Mesh& mesh,
         } // will make sure it's a unit vector
         mag = sqrt(mag);
 
+        // the component of the velocity in the specified direction
+        double vel_dot_dir = 0.0;
+        for (size_t dim = 0; dim<mesh.num_dims; dim++){
+            vel_dot_dir += node_vel(bdy_node_gid, dim)*vel_bc_global_vars(bdy_set,dim)/mag;
+        }
+
         for (size_t dim = 0; dim<mesh.num_dims; dim++){
             // remove the velocity in the specified direction
-            node_vel(bdy_node_gid, dim) -= node_vel(bdy_node_gid, dim)*vel_bc_global_vars(bdy_set,dim)/mag;
+            node_vel(bdy_node_gid, dim) -= vel_dot_dir*vel_bc_global_vars(bdy_set,dim)/mag;
 
             // add the desired velocity in the specified direction
             node_vel(bdy_node_gid, dim) += vel*vel_bc_global_vars(bdy_set,dim)/mag;
@@ -128,4 +134,4 @@ static void velocity(const swage::Mesh& mesh,
 } // end func
 } // end namespace
 
-#endif // end Header Guard
\ No newline at end of file
+#endif // end Header Guard
\ No newline at end of file
-- 
2.43.0


From a772627564f2b511c272fa99ffa9db3a56b709de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:19 +0000
Subject: [PATCH 35/81] fix: output times of a solver count from its own start
 time

---
 apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp | 2 +-
 .../src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp            | 2 +-
 .../src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp             | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
index 5b6295d..c3fa0ad 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
@@ -611,7 +611,7 @@ void SGH3D::execute(SimulationParameters_t& SimulationParamaters,
                                    SGH3D_State::required_material_pt_state,
                                    this->solver_id);
             output_id++;
-            graphics_time = (double)(output_id) * graphics_dt_ival;
+            graphics_time = this->time_start + (double)(output_id) * graphics_dt_ival;
 
             dt = cached_pregraphics_dt;
         } // end if
diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
index 21e4139..b3081df 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
@@ -459,7 +459,7 @@ void SGHRZ::execute(SimulationParameters_t& SimulationParamaters,
                                    this->solver_id);
 
             output_id++;
-            graphics_time = (double)(output_id) * graphics_dt_ival;
+            graphics_time = this->time_start + (double)(output_id) * graphics_dt_ival;
 
             dt = cached_pregraphics_dt;
         } // end if
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
index 0f84db9..ad72b22 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
@@ -401,7 +401,7 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
                                    this->solver_id);
 
             output_id++;
-            graphics_time = (double)(output_id) * graphics_dt_ival;
+            graphics_time = this->time_start + (double)(output_id) * graphics_dt_ival;
 
         } // end if
 
-- 
2.43.0


From b264d1cbf0cff528a8a6aaae2d017fd28c3fd113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 36/81] fix: mesh files are read with the dimensions of the
 mesh options, so 2D mesh files work

---
 apps/multiphysics/src/driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/driver.cpp b/apps/multiphysics/src/driver.cpp
index 8ff09fe..e2588c9 100644
--- a/apps/multiphysics/src/driver.cpp
+++ b/apps/multiphysics/src/driver.cpp
@@ -88,7 +88,7 @@ void Driver::initialize()
         mesh_reader.read_mesh(mesh, 
                               State,
                               SimulationParamaters.mesh_input, 
-                              num_dims);
+                              SimulationParamaters.mesh_input.num_dims);
     }
     else if (SimulationParamaters.mesh_input.source == mesh_input::generate) {
         mesh_builder.build_mesh(mesh, 
-- 
2.43.0


From 5f4f034f4acde0d7693a4fe0692cd12a5d93f4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 37/81] fix: incomplete or inconsistent EnSight mesh files are
 refused, and quads keep their node order

---
 .../src/common/include/mesh_io.hpp            | 67 +++++++++++++------
 1 file changed, 45 insertions(+), 22 deletions(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index 0530f15..3f55f38 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -44,6 +44,8 @@ ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include <map>
 #include <memory>
 #include <cstring>
+#include <cctype>
+#include <map>
 #include <sys/stat.h>
 #include <iostream>
 #include <regex>    // for string pattern recoginition
@@ -320,6 +322,21 @@ public:
         mesh_file_ = MESH;
     }
 
+    // Stop when the mesh is empty or an element refers to a node that is not in the mesh
+    void check_mesh(const swage::Mesh& mesh) const
+    {
+        if (mesh.num_nodes == 0 || mesh.num_elems == 0) {
+            throw std::runtime_error("**** The mesh file has no nodes or no elements ****");
+        }
+        for (size_t elem_gid = 0; elem_gid < mesh.num_elems; elem_gid++) {
+            for (size_t node_lid = 0; node_lid < mesh.num_nodes_in_elem; node_lid++) {
+                if (mesh.nodes_in_elem.host(elem_gid, node_lid) >= mesh.num_nodes) {
+                    throw std::runtime_error("**** An element of the mesh file refers to a node that does not exist ****");
+                }
+            }
+        }
+    }
+
     // Reads and initializes the mesh and geometric state entities
     /////////////////////////////////////////////////////////////////////////////
     ///
@@ -403,7 +420,6 @@ public:
                            int num_dims)
     {
         FILE* in;
-        char  ch;
 
         size_t num_nodes_in_elem = 1;
         for (int dim = 0; dim < num_dims; dim++) {
@@ -412,20 +428,31 @@ public:
 
         // read the mesh    WARNING: assumes a .geo file
         in = fopen(mesh_file_, "r");
+        if (in == NULL) {
+            throw std::runtime_error("**** Failed to open the mesh file ****");
+        }
+
+        auto fail = [&]() {
+            fclose(in);
+            throw std::runtime_error("**** The EnSight mesh file is incomplete or not readable ****");
+        };
+        auto skip_line = [&]() {
+            int c;
+            while ((c = fgetc(in)) != '\n') {
+                if (c == EOF) fail();
+            }
+        };
 
         // skip 8 lines
         for (int j = 1; j <= 8; j++) {
-            int i = 0;
-            while ((ch = (char)fgetc(in)) != '\n') {
-                i++;
-            }
+            skip_line();
         }
 
         // --- Read in the nodes in the mesh ---
 
         size_t num_nodes = 0;
 
-        fscanf(in, "%lu", &num_nodes);
+        if (fscanf(in, "%lu", &num_nodes) != 1) fail();
         printf("Number of nodes read in %lu\n", num_nodes);
 
         
@@ -438,25 +465,25 @@ public:
         // read the initial mesh coordinates
         // x-coords
         for (int node_id = 0; node_id < mesh.num_nodes; node_id++) {
-            fscanf(in, "%le", &node.coords.host(node_id, 0));
+            if (fscanf(in, "%le", &node.coords.host(node_id, 0)) != 1) fail();
             node.coords.host(node_id, 0)*= mesh_inps.scale_x;
         }
 
         // y-coords
         for (int node_id = 0; node_id < mesh.num_nodes; node_id++) {
-            fscanf(in, "%le", &node.coords.host(node_id, 1));
+            if (fscanf(in, "%le", &node.coords.host(node_id, 1)) != 1) fail();
             node.coords.host(node_id, 1)*= mesh_inps.scale_y;
         }
 
         // z-coords
         for (int node_id = 0; node_id < mesh.num_nodes; node_id++) {
             if (num_dims == 3) {
-                fscanf(in, "%le", &node.coords.host(node_id, 2));
+                if (fscanf(in, "%le", &node.coords.host(node_id, 2)) != 1) fail();
                 node.coords.host(node_id, 2)*= mesh_inps.scale_z;
             }
             else{
                 double dummy;
-                fscanf(in, "%le", &dummy);
+                if (fscanf(in, "%le", &dummy) != 1) fail();
             }
         } // end for
 
@@ -464,20 +491,14 @@ public:
         // Update device nodal positions
         node.coords.update_device();
 
-        ch = (char)fgetc(in);
-
-        // skip 1 line
-        for (int j = 1; j <= 1; j++) {
-            int i = 0;
-            while ((ch = (char)fgetc(in)) != '\n') {
-                i++;
-            }
-        }
+        // skip the rest of the line of the last coordinate, and 1 line
+        skip_line();
+        skip_line();
 
         // --- read in the elements in the mesh ---
         size_t num_elem = 0;
 
-        fscanf(in, "%lu", &num_elem);
+        if (fscanf(in, "%lu", &num_elem) != 1) fail();
         printf("Number of elements read in %lu\n", num_elem);
 
         // initialize elem variables
@@ -488,7 +509,7 @@ public:
         // for each cell read the list of associated nodes
         for (int elem_gid = 0; elem_gid < num_elem; elem_gid++) {
             for (int node_lid = 0; node_lid < num_nodes_in_elem; node_lid++) {
-                fscanf(in, "%lu", &mesh.nodes_in_elem.host(elem_gid, node_lid));  // %d vs zu
+                if (fscanf(in, "%lu", &mesh.nodes_in_elem.host(elem_gid, node_lid)) != 1) fail();  // %d vs zu
 
                 // shift to start node index space at 0
                 mesh.nodes_in_elem.host(elem_gid, node_lid) -= 1;
@@ -508,7 +529,8 @@ public:
 
         int tmp_ijk_indx[8];
 
-        for (int elem_gid = 0; elem_gid < num_elem; elem_gid++) {
+        // (quads keep their order)
+        for (int elem_gid = 0; elem_gid < num_elem && num_dims == 3; elem_gid++) {
             for (int node_lid = 0; node_lid < num_nodes_in_elem; node_lid++) {
                 tmp_ijk_indx[node_lid] = mesh.nodes_in_elem.host(elem_gid, convert_ensight_to_ijk[node_lid]);
             }
@@ -527,6 +549,7 @@ public:
 
         // Close mesh input file
         fclose(in);
+        check_mesh(mesh);
 
         // Build connectivity
         mesh.build_connectivity();
-- 
2.43.0


From d367000871025fe8a11fa2919b1cd7a5d6dd6bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 38/81] fix: Abaqus mesh files with node ids, comments, scaling
 or 2D elements are read as written, damaged ones refused

---
 .../src/common/include/mesh_io.hpp            | 89 ++++++++++++++-----
 1 file changed, 67 insertions(+), 22 deletions(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index 3f55f38..ba01a1c 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -385,7 +385,7 @@ public:
             read_ensight_mesh(mesh, State.GaussPoints, State.node, State.corner, mesh_inps, num_dims);
         }
         else if(extension == "inp"){ // Abaqus meshfile extension
-            read_Abaqus_mesh(mesh, State, num_dims);
+            read_Abaqus_mesh(mesh, State, mesh_inps, num_dims);
         }
         else if(extension == "vtk"){ // vtk file format
             read_vtk_mesh(mesh, State.GaussPoints, State.node, State.corner, mesh_inps, num_dims);
@@ -571,16 +571,37 @@ public:
     /////////////////////////////////////////////////////////////////////////////
     void read_Abaqus_mesh(swage::Mesh& mesh,
                           State_t& State,
+                          mesh_input_t& mesh_inps,
                           int num_dims)
     {
 
         std::cout<<"Reading abaqus input file for mesh"<<std::endl;
         std::ifstream inputFile(mesh_file_);
         if (!inputFile.is_open()) {
-            std::cerr << "Failed to open the file." << std::endl;
-
+            throw std::runtime_error("**** Failed to open the mesh file ****");
         }
 
+        auto fail = [](const std::string& line) {
+            throw std::runtime_error("**** The Abaqus mesh file is not readable: " + line + " ****");
+        };
+
+        // the keyword of a line in lower case, e.g. *element, empty if there is none
+        auto keyword = [](const std::string& line) {
+            std::string word;
+            if (line.empty() || line[0] != '*') return word;
+            for (char c : line) {
+                if (c == ',') break;
+                word += (char)std::tolower((unsigned char)c);
+            }
+            while (!word.empty() && word.back() == ' ') word.pop_back();
+            return word;
+        };
+
+        const int num_nodes_in_elem = (num_dims == 3 ? 8 : 4);
+
+        // the index of the node with a given id
+        std::map<int, size_t> node_index;
+
         std::vector<Node> nodes;
         std::vector<Element> elements;
 
@@ -589,7 +610,13 @@ public:
         bool readingElements = false;
 
         while (std::getline(inputFile, line)) {
-            if (line.find("*Node") != std::string::npos) {
+            // blanks at the end, comments and empty lines
+            line.erase(line.find_last_not_of(" \t\r") + 1);
+            if (line.empty() || line.compare(0, 2, "**") == 0) {
+                continue;
+            }
+
+            if (keyword(line) == "*node") {
                 readingNodes = true;
                 std::cout<<"Found *Node"<<std::endl;
 
@@ -604,16 +631,21 @@ public:
                 std::string token;
                 Node node;
 
+                node.z = 0.0;
                 if (!(iss >> node.id && std::getline(iss, token, ',') && iss >> node.x &&
-                    std::getline(iss, token, ',') && iss >> node.y &&
-                    std::getline(iss, token, ',') && iss >> node.z)) {
-                    std::cerr << "Failed to parse line: " << line << std::endl;
-                    continue; // Skip this line if parsing failed
+                    std::getline(iss, token, ',') && iss >> node.y)) {
+                    fail(line);
+                }
+                if (num_dims == 3 && !(std::getline(iss, token, ',') && iss >> node.z)) {
+                    fail(line);
+                }
+                if (!node_index.insert({node.id, nodes.size()}).second) {
+                    fail(line);
                 }
                 nodes.push_back(node);
             }
 
-            if (line.find("*Element") != std::string::npos) {
+            if (keyword(line) == "*element") {
                 readingElements = true;
                 std::cout<<"Found *Element*"<<std::endl;
             } 
@@ -626,16 +658,20 @@ public:
                 std::string token;
 
                 if (!(iss >> element.id)){
-                    std::cout << "Failed to parse line: " << line << std::endl;
-                    continue; // Skip this line if parsing failed
+                    fail(line);
                 } 
 
                 while ((std::getline(iss, token, ','))) { 
                     // Now extract the integer, ignoring any trailing whitespace
                     int val;
-                    iss >> val;
+                    if (!(iss >> val)) {
+                        fail(line);
+                    }
                     element.connectivity.push_back(val);
                 }
+                if (element.connectivity.size() != (size_t)num_nodes_in_elem) {
+                    fail(line);
+                }
 
                 // Convert from abaqus to IJK mesh
                 int convert_abq_to_ijk[8];
@@ -650,11 +686,12 @@ public:
 
                 int tmp_ijk_indx[8];
 
-                for (int node_lid = 0; node_lid < 8; node_lid++) {
+                // (quads keep their order)
+                for (int node_lid = 0; node_lid < 8 && num_dims == 3; node_lid++) {
                     tmp_ijk_indx[node_lid] = element.connectivity[convert_abq_to_ijk[node_lid]];
                 }
 
-                for (int node_lid = 0; node_lid < 8; node_lid++){
+                for (int node_lid = 0; node_lid < 8 && num_dims == 3; node_lid++){
                     element.connectivity[node_lid] = tmp_ijk_indx[node_lid];
                 }
 
@@ -662,6 +699,9 @@ public:
             }
         }
 
+        if (inputFile.bad()) {
+            throw std::runtime_error("**** Failed to read the mesh file ****");
+        }
         inputFile.close();
 
         size_t num_nodes = nodes.size();
@@ -679,9 +719,11 @@ public:
 
         // Copy nodes to mesh
         for(int node_gid = 0; node_gid < num_nodes; node_gid++){
-            State.node.coords.host(node_gid, 0) = nodes[node_gid].x;
-            State.node.coords.host(node_gid, 1) = nodes[node_gid].y;
-            State.node.coords.host(node_gid, 2) = nodes[node_gid].z;
+            State.node.coords.host(node_gid, 0) = mesh_inps.scale_x*nodes[node_gid].x;
+            State.node.coords.host(node_gid, 1) = mesh_inps.scale_y*nodes[node_gid].y;
+            if (num_dims == 3) {
+                State.node.coords.host(node_gid, 2) = mesh_inps.scale_z*nodes[node_gid].z;
+            }
         }
 
         // Update device nodal positions
@@ -698,13 +740,16 @@ public:
 
         // for each cell read the list of associated nodes
         for (int elem_gid = 0; elem_gid < num_elem; elem_gid++) {
-            for (int node_lid = 0; node_lid < 8; node_lid++) {
-                mesh.nodes_in_elem.host(elem_gid, node_lid) = elements[elem_gid].connectivity[node_lid];
-
-                // shift to start node index space at 0
-                mesh.nodes_in_elem.host(elem_gid, node_lid) -= 1;
+            for (int node_lid = 0; node_lid < num_nodes_in_elem; node_lid++) {
+                // the elements refer to the ids of the nodes
+                auto node = node_index.find(elements[elem_gid].connectivity[node_lid]);
+                if (node == node_index.end()) {
+                    throw std::runtime_error("**** An element of the mesh file refers to a node that does not exist ****");
+                }
+                mesh.nodes_in_elem.host(elem_gid, node_lid) = node->second;
             }
         }
+        check_mesh(mesh);
 
         // update device side
         mesh.nodes_in_elem.update_device();
-- 
2.43.0


From 9e99c28e64e964a96bc0f3e17f1c73228706652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 39/81] fix: VTK mesh files with any layout of their values are
 read, incomplete or inconsistent ones refused

---
 .../src/common/include/mesh_io.hpp            | 67 +++++++++----------
 1 file changed, 30 insertions(+), 37 deletions(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index ba01a1c..1df8fa4 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -802,6 +802,10 @@ public:
         
         std::ifstream in;  // FILE *in;
         in.open(mesh_file_);
+
+        auto fail = [](const std::string& what) {
+            throw std::runtime_error("**** The VTK mesh file has no valid " + what + " ****");
+        };
         
 
         // look for POINTS
@@ -809,12 +813,13 @@ public:
         while (found==false) {
             std::string str;
             std::string delimiter = " ";
-            std::getline(in, str);
+            if (!std::getline(in, str)) fail("POINTS");
             std::vector<std::string> v = split (str, delimiter);
             
             // looking for the following text:
             //      POINTS %d float
             if(v[0] == "POINTS"){
+                if (v.size() < 2) fail("POINTS");
                 size_t num_nodes = std::stoi(v[1]);
                 printf("Number of nodes read in %zu\n", num_nodes);
                 mesh.initialize_nodes(num_nodes);
@@ -827,8 +832,7 @@ public:
             
             
             if (i>1000){
-                std::cerr << "ERROR: Failed to find POINTS in file" << std::endl;
-                break;
+                fail("POINTS");
             } // end if
             
             i++;
@@ -837,17 +841,15 @@ public:
         // read the node coordinates
         for (node_gid=0; node_gid<mesh.num_nodes; node_gid++){
             
-            std::string str;
-            std::getline(in, str);
-            
-            std::string delimiter = " ";
-            std::vector<std::string> v = split (str, delimiter);
+            // the values may be spread over the lines in any way
+            double x, y, z;
+            if (!(in >> x >> y >> z)) fail("node coordinates");
             
             // save the nodal coordinates
-            node.coords.host(node_gid, 0) = mesh_inps.scale_x*std::stod(v[0]); // double
-            node.coords.host(node_gid, 1) = mesh_inps.scale_y*std::stod(v[1]); // double
+            node.coords.host(node_gid, 0) = mesh_inps.scale_x*x;
+            node.coords.host(node_gid, 1) = mesh_inps.scale_y*y;
             if(num_dims==3){
-                node.coords.host(node_gid, 2) = mesh_inps.scale_z*std::stod(v[2]); // double
+                node.coords.host(node_gid, 2) = mesh_inps.scale_z*z;
             }
             
         } // end for nodes
@@ -864,7 +866,7 @@ public:
         size_t num_elem = 0;
         while (found==false) {
             std::string str;
-            std::getline(in, str);
+            if (!std::getline(in, str)) fail("CELLS");
             
             std::string delimiter = " ";
             std::vector<std::string> v = split (str, delimiter);
@@ -873,6 +875,7 @@ public:
             // looking for the following text:
             //      CELLS num_elem size
             if(v[0] == "CELLS"){
+                if (v.size() < 2) fail("CELLS");
                 num_elem = std::stoi(v[1]);
                 printf("Number of elements read in %zu\n", num_elem);
 
@@ -884,8 +887,7 @@ public:
             
             
             if (i>1000){
-                printf("ERROR: Failed to find CELLS \n");
-                break;
+                fail("CELLS");
             } // end if
             
             i++;
@@ -895,20 +897,17 @@ public:
         // read the node ids in the element
         for (elem_gid=0; elem_gid<num_elem; elem_gid++) {
             
-            std::string str;
-            std::getline(in, str);
-            
-            std::string delimiter = " ";
-            std::vector<std::string> v = split (str, delimiter);
-            num_nodes_in_elem = std::stoi(v[0]);
+            size_t num_nodes_in_cell;
+            if (!(in >> num_nodes_in_cell) || num_nodes_in_cell != num_nodes_in_elem) fail("CELLS");
             
             for (size_t node_lid=0; node_lid<num_nodes_in_elem; node_lid++){
-                mesh.nodes_in_elem.host(elem_gid, node_lid) = std::stod(v[node_lid+1]);
+                if (!(in >> mesh.nodes_in_elem.host(elem_gid, node_lid))) fail("CELLS");
                 //printf(" %zu ", elem_point_list(elem_gid,node_lid) ); // printing
             }
             //printf("\n"); // printing
             
         } // end for
+        check_mesh(mesh);
 
         // Convert from ensight to IJK mesh
         size_t convert_ensight_to_ijk[8];
@@ -923,7 +922,8 @@ public:
 
         size_t tmp_ijk_indx[8];
 
-        for (size_t elem_gid = 0; elem_gid < num_elem; elem_gid++) {
+        // (quads keep their order)
+        for (size_t elem_gid = 0; elem_gid < num_elem && num_dims == 3; elem_gid++) {
             for (size_t node_lid = 0; node_lid < num_nodes_in_elem; node_lid++) {
                 tmp_ijk_indx[node_lid] = mesh.nodes_in_elem.host(elem_gid, convert_ensight_to_ijk[node_lid]);
             }
@@ -956,38 +956,31 @@ public:
         while (found==false) {
             std::string str;
             std::string delimiter = " ";
-            std::getline(in, str);
+            if (!std::getline(in, str)) fail("CELL_TYPES");
             std::vector<std::string> v = split (str, delimiter);
             
             // looking for the following text:
             //      CELLS num_elem size
             if(v[0] == "CELL_TYPES"){
+                if (v.size() < 2 || std::stoul(v[1]) != num_elem) fail("CELL_TYPES");
 
-                std::getline(in, str);
-                elem_type = std::stoi(str);
+                // linear hex = 12, linear quad = 9
+                const size_t wanted_type = (num_dims == 3 ? 12 : 9);
+                for (elem_gid=0; elem_gid<num_elem; elem_gid++) {
+                    if (!(in >> elem_type) || elem_type != wanted_type) fail("CELL_TYPES");
+                }
                 
                 found=true;
             } // end if
             
             
             if (i>1000){
-                printf("ERROR: Failed to find elem_TYPE \n");
-                break;
+                fail("CELL_TYPES");
             } // end if
             
             i++;
         } // end while
         printf("Element type = %zu \n", elem_type);
-        // elem types:
-        // linear hex = 12, linear quad = 9
-        found=false;
-        
-        
-        if(num_nodes_in_elem==8 & elem_type != 12) {
-            printf("Wrong element type of %zu \n", elem_type);
-            std::cerr << "ERROR: incorrect element type in VTK file" << std::endl;
-        }
-        
         in.close();
         
     } // end of VTKread function
-- 
2.43.0


From 48e7611a0007f2ece3e147103ca6852f3e5838e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 40/81] fix: VTU mesh files whose sizes or types do not fit are
 refused instead of read past the arrays

---
 .../src/common/include/mesh_io.hpp            | 48 +++++++++++++++----
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index 1df8fa4..a669684 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -160,12 +160,14 @@ int get_id_device(int i, int j, int k, int num_i, int num_j)
 //-------
 // word is the field name e.g., Offsets, connectivity, etc.
 // stop is the phrase to stop extracting values
+// max_size is the number of values there is space for
 template <typename T>
 inline bool extract_values_xml(T *values_xml,
                         const std::string& word,
                         const std::string& stop,
                         std::ifstream& in,
-                        size_t& size)
+                        size_t& size,
+                        const size_t max_size)
 {
 
         bool found = false;
@@ -190,6 +192,9 @@ inline bool extract_values_xml(T *values_xml,
                     // extract the individual values from the stream
                     T value;
                     while (iss >> value) {
+                        if (i >= max_size) {
+                            throw std::runtime_error("ERROR: too many values for " + word + " in the XML file!");
+                        }
                         values_xml[i] = value;
                         i++;
                     } // end while
@@ -245,6 +250,7 @@ inline bool extract_num_points_and_cells_xml(int& numberOfPoints,
 
             } else {
                 std::cout << "Error reading the number of points and cells in the mesh!" << std::endl;
+                found = false;
             }
             
             break;
@@ -1027,8 +1033,8 @@ public:
         
 
         // --- extract the number of points and cells from the XML file ---
-        int num_nodes;
-        int num_elems;
+        int num_nodes = 0;
+        int num_elems = 0;
         found = extract_num_points_and_cells_xml(num_nodes,
                                                  num_elems,
                                                  in);
@@ -1036,6 +1042,9 @@ public:
             throw std::runtime_error("ERROR: number of points and/or cells not found in the XML file!");
             //std::cout << "ERROR: number of points and cells not found in the XML file!" << std::endl;
         }
+        if(num_nodes <= 0 || num_elems <= 0){
+            throw std::runtime_error("ERROR: there are no points or cells in the XML file!");
+        }
         std::cout << "Number of nodes in the mesh file: " << num_nodes << std::endl;
         std::cout << "Number of elements in the mesh file: " << num_elems << std::endl;
         
@@ -1085,12 +1094,16 @@ public:
                                 "\"ObjectId\"",
                                 stop,
                                 in,
-                                size);
+                                size,
+                                num_elems);
         if(found==false){
             // throw std::runtime_error("ERROR: ObjectIDs were not found in the XML file!");
             std::cout << "ERROR: ObjectIDs were not found in the XML file!" << std::endl;
             mesh_inps.object_ids.host.set_values(0.0);
         }
+        else if (size != num_elems){
+            throw std::runtime_error("ERROR: failed to read all the ObjectIDs!");
+        }
         mesh_inps.object_ids.update_device();
 
         // Reset file stream to beginning to search for Points
@@ -1108,7 +1121,8 @@ public:
                                 "\"Points\"",
                                 stop,
                                 in,
-                                size);
+                                size,
+                                (size_t)num_nodes*3);
         if(found==false){
             throw std::runtime_error("**** ERROR: mesh nodes were not found in the XML file! ****");
             //std::cout << "ERROR: mesh nodes were not found in the XML file!" << std::endl;
@@ -1148,9 +1162,13 @@ public:
                                 "\"connectivity\"",
                                 stop,
                                 in,
-                                size);
+                                size,
+                                num_elems*num_nodes_in_elem);
         if(found==false){
-            std::cout << "ERROR: mesh connectivity was not found in the XML file!" << std::endl;
+            throw std::runtime_error("ERROR: mesh connectivity was not found in the XML file!");
+        }
+        if (size != num_elems*num_nodes_in_elem){
+            throw std::runtime_error("ERROR: failed to read the nodes of all the elements!");
         }
         connectivity.update_device();
 
@@ -1164,9 +1182,20 @@ public:
                                 "\"types\"",
                                 stop,
                                 in,
-                                size);
+                                size,
+                                num_elems);
         if(found==false){
-            std::cout << "ERROR: element types were not found in the XML file!" << std::endl;
+            throw std::runtime_error("ERROR: element types were not found in the XML file!");
+        }
+        if (size != num_elems){
+            throw std::runtime_error("ERROR: failed to read all the element types!");
+        }
+        for (int elem_gid = 0; elem_gid < num_elems; elem_gid++) {
+            // the connectivity of all elements is converted according to the type of the first one
+            if (elem_types.host(elem_gid) != elem_types.host(0) ||
+                (elem_types.host(0) == element_types::linear_quad) != (num_dims == 2)) {
+                throw std::runtime_error("ERROR: the element types in the XML file are mixed or do not fit the dimensions!");
+            }
         }
         elem_types.update_device();
 
@@ -1288,6 +1317,7 @@ public:
 
         } // end switch
         mesh.nodes_in_elem.update_host();
+        check_mesh(mesh);
 
 
         // initialize corner variables
-- 
2.43.0


From d4b6655b4e69481066bb7f681f6cc263682b126e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:12 +0000
Subject: [PATCH 41/81] fix: an output file that cannot be opened, written or
 closed stops the run with an error

---
 .../src/common/include/mesh_io.hpp            | 63 ++++++++++++-------
 1 file changed, 41 insertions(+), 22 deletions(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index a669684..fbeb457 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -1984,6 +1984,25 @@ class MeshWriter
 private:
     int graphics_id = 0;
 
+    // Open an output file, stop if that is not possible
+    static FILE* open_output(const char* filename)
+    {
+        FILE* file = fopen(filename, "w");
+        if (file == NULL) {
+            throw std::runtime_error("**** Failed to open the output file " + std::string(filename) + " ****");
+        }
+        return file;
+    }
+
+    // Close an output file, stop if it could not be written completely, e.g., on a full disk
+    static void close_output(FILE* file, const std::string& filename)
+    {
+        const bool failed = (ferror(file) != 0);
+        if (fclose(file) != 0 || failed) {
+            throw std::runtime_error("**** Failed to write the output file " + filename + " ****");
+        }
+    }
+
 public:
 
     MeshWriter() {}
@@ -3186,7 +3205,7 @@ public:
         // filename has the full string
         if (str_output_len >= max_len) { fputs("Filename length exceeded; string truncated", stderr); }
 
-        out[0] = fopen(filename, "w");
+        out[0] = open_output(filename);
 
         fprintf(out[0], "A graphics dump by Fierro \n");
 
@@ -3262,7 +3281,7 @@ public:
             fprintf(out[0], "\n");
         }
 
-        fclose(out[0]);
+        close_output(out[0], filename);
 
         // ---------------------------------------------------------------------------
         // Write the Scalar variable files
@@ -3275,7 +3294,7 @@ public:
             str_output_len = snprintf(filename, max_len, "ensight/data/%s.%05d.%s", name, graphics_id, scalar_var_names[var]);
             if (str_output_len >= max_len) { fputs("Filename length exceeded; string truncated", stderr); }
 
-            out[0] = fopen(filename, "w");
+            out[0] = open_output(filename);
 
             fprintf(out[0], "Per_elem scalar values\n");
             fprintf(out[0], "part\n");
@@ -3291,7 +3310,7 @@ public:
                 fprintf(out[0], "%12.5e\n", elem_fields(elem_id, var));
             }
 
-            fclose(out[0]);
+            close_output(out[0], filename);
         } // end for var
 
         //  ---------------------------------------------------------------------------
@@ -3304,7 +3323,7 @@ public:
             str_output_len = snprintf(filename, max_len, "ensight/data/%s.%05d.%s", name, graphics_id, vec_var_names[var]);
             if (str_output_len >= max_len) { fputs("Filename length exceeded; string truncated", stderr); }
 
-            out[0] = fopen(filename, "w");
+            out[0] = open_output(filename);
             // fprintf(out[0],"Per_node vector values\n");
             // fprintf(out[0],"part\n");
             // fprintf(out[0],"%10d \n",1);
@@ -3327,7 +3346,7 @@ public:
                 fprintf(out[0], "%12.5e\n", vec_fields(node_gid, var, 2));
             }
 
-            fclose(out[0]);
+            close_output(out[0], filename);
         } // end for var
 
         // ---------------------------------------------------------------------------
@@ -3338,7 +3357,7 @@ public:
         str_output_len = snprintf(filename, max_len, "ensight/%s.case", name);
         if (str_output_len >= max_len) { fputs("Filename length exceeded; string truncated", stderr); }
 
-        out[0] = fopen(filename, "w");
+        out[0] = open_output(filename);
 
         fprintf(out[0], "FORMAT\n");
         fprintf(out[0], "type: ensight gold\n");
@@ -3378,7 +3397,7 @@ public:
         for (int i = 0; i <= graphics_id; i++) {
             fprintf(out[0], "%12.5e\n", graphics_times(i));
         }
-        fclose(out[0]);
+        close_output(out[0], "ensight/" + name_tmp + ".case");
 
         // ---------------------------------------------------------------------------
         // Done writing the graphics dump
@@ -3595,7 +3614,7 @@ public:
         if (str_output_len >= max_len) { fputs("Filename length exceeded; string truncated", stderr); }
          // mesh file
         
-        out[0] = fopen(filename, "w");
+        out[0] = open_output(filename);
 
         fprintf(out[0], "# vtk DataFile Version 2.0\n");  // part 2
         fprintf(out[0], "Mesh for Fierro\n");             // part 2
@@ -3703,7 +3722,7 @@ public:
             } // end for elem
         } // end for cell scalar_vars
 
-        fclose(out[0]);
+        close_output(out[0], filename);
 
         graphics_times(graphics_id) = time_value;
 
@@ -3713,7 +3732,7 @@ public:
         if (str_output_len >= max_len) { fputs("Filename length exceeded; string truncated", stderr); }
         // mesh file
 
-        out[0] = fopen(filename, "w");
+        out[0] = open_output(filename);
 
         fprintf(out[0], "{\n");
         fprintf(out[0], "  \"file-series-version\" : \"1.0\",\n");
@@ -3727,7 +3746,7 @@ public:
         fprintf(out[0], "  ]\n"); // part 4
         fprintf(out[0], "}"); // part 4
 
-        fclose(out[0]);
+        close_output(out[0], filename);
 
         // increment graphics id counter
         graphics_id++;
@@ -4305,7 +4324,7 @@ public:
         if (str_output_len >= max_len) { fputs("Filename length exceeded; string truncated", stderr); }
         // mesh file
         
-        out[0] = fopen(filename, "w");
+        out[0] = open_output(filename);
 
         fprintf(out[0], "<?xml version=\"1.0\"?>\n");  
         fprintf(out[0], "<VTKFile type=\"UnstructuredGrid\" version=\"1.0\" byte_order=\"LittleEndian\">\n"); 
@@ -4520,7 +4539,7 @@ public:
         //-----------------
         // close the vtu file for element fields
         //-----------------
-        fclose(out[0]);
+        close_output(out[0], filename);
 
     } // end write vtu
 
@@ -4553,7 +4572,7 @@ public:
         if (str_output_len >= max_len) { fputs("Filename length exceeded; string truncated", stderr); }
         // mesh file
 
-        out[0] = fopen(filename, "w");
+        out[0] = open_output(filename);
  
         fprintf(out[0], "<?xml version=\"1.0\"?>\n");
         fprintf(out[0], "<VTKFile type=\"Collection\" version=\"1.0\" byte_order=\"LittleEndian\">\n");
@@ -4569,7 +4588,7 @@ public:
         fprintf(out[0], "  </Collection>\n");
         fprintf(out[0], "</VTKFile>"); 
 
-        fclose(out[0]);
+        close_output(out[0], filename);
 
     } // end pvd
 
@@ -4611,7 +4630,7 @@ public:
             if (str_output_len >= max_len) { fputs("Filename length exceeded; string truncated", stderr); }
             // mesh file
 
-            out[0] = fopen(filename, "w");
+            out[0] = open_output(filename);
     
             fprintf(out[0], "<?xml version=\"1.0\"?>\n");
             fprintf(out[0], "<VTKFile type=\"vtkMultiBlockDataSet\" version=\"1.0\" byte_order=\"LittleEndian\" header_type=\"UInt64\">\n");
@@ -4655,7 +4674,7 @@ public:
             fprintf(out[0], "  </vtkMultiBlockDataSet>\n");
             fprintf(out[0], "</VTKFile>"); 
 
-            fclose(out[0]);
+            close_output(out[0], filename);
 
         } // end for file_id
 
@@ -4832,7 +4851,7 @@ public:
         snprintf(filename, max_len, "state/mat_pt_state_t_%6.4e.txt", time_value);
 
         // output files
-        out_elem_state = fopen(filename, "w");
+        out_elem_state = open_output(filename);
 
         // write state dump
         fprintf(out_elem_state, "# state dump file\n");
@@ -4894,7 +4913,7 @@ public:
             } // end for elements
 
         } // end for materials
-        fclose(out_elem_state);
+        close_output(out_elem_state, filename);
 
 
 
@@ -4905,7 +4924,7 @@ public:
         snprintf(filename, max_len, "state/node_state_t_%6.4e.txt", time_value);
 
         // output files
-        out_point_state = fopen(filename, "w");
+        out_point_state = open_output(filename);
 
         // write state dump
         fprintf(out_point_state, "# state node dump file\n");
@@ -4980,7 +4999,7 @@ public:
         } // end loop over nodes in element
 
 
-        fclose(out_point_state);
+        close_output(out_point_state, filename);
 
 
         return;
-- 
2.43.0


From ad8a8be8efc3e58262e17a6f84a05d9957bd7022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:12 +0000
Subject: [PATCH 42/81] fix: the vtm file lists the vtu files of its own output
 and materials

---
 .../src/common/include/mesh_io.hpp            | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index fbeb457..2931a0c 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -2818,7 +2818,7 @@ public:
 
 
             // note: the file path and folder was created in the elem and node outputs
-            size_t num_mat_files_written = 0;
+            std::vector<size_t> mat_files_written;  // the materials with a file
             if(num_mat_pt_scalar_vars > 0 || num_mat_pt_tensor_vars >0){
 
                 for (int mat_id = 0; mat_id < num_mats; mat_id++) {
@@ -2908,7 +2908,7 @@ public:
                                   solver_id);
 
 
-                        num_mat_files_written++;
+                        mat_files_written.push_back(mat_id);
 
                     } // end for mat_id
 
@@ -2949,7 +2949,7 @@ public:
                       mat_fields_name,
                       time_value,
                       graphics_id,
-                      num_mat_files_written,
+                      mat_files_written,
                       write_mesh_state,
                       write_mat_pt_state,
                       solver_id);
@@ -4610,13 +4610,14 @@ public:
                    const  std::string& mat_part_name,
                    double time_value,
                    int graphics_id,
-                   int num_mats,
+                   const std::vector<size_t>& mat_ids,
                    bool write_mesh_state,
                    bool write_mat_pt_state,
                    const size_t solver_id)
     {
-        // loop over all the files that were written 
-        for(int file_id=0; file_id<=graphics_id; file_id++){
+        // only the file of this output, the earlier ones are complete
+        const int file_id = graphics_id;
+        {
 
             FILE* out[20];   // the output files that are written to
             char  filename[100]; // char string
@@ -4658,10 +4659,13 @@ public:
             // note: the block_id was incremented if an element average field output was made
             if (write_mat_pt_state){
                 fprintf(out[0], "    <Block index=\"%zu\" name=\"Mat\">\n", block_id);
-                for (size_t mat_id=0; mat_id<num_mats; mat_id++){
-                    
+                for (size_t mat_lid=0; mat_lid<mat_ids.size(); mat_lid++){
+
+                    // only materials that live on the mesh have a file
+                    const size_t mat_id = mat_ids[mat_lid];
+
                     // output the material specific fields
-                    fprintf(out[0], "      <Piece index=\"%zu\" name=\"Mat%zu\">\n", mat_id, mat_id);
+                    fprintf(out[0], "      <Piece index=\"%zu\" name=\"Mat%zu\">\n", mat_lid, mat_id);
                     fprintf(out[0], "        <DataSet timestep=\"%d\" file=\"Fierro.solver%zu.%s%zu.%05d.vtu\" time= \"%12.5e\" />\n", 
                                                                file_id, solver_id, mat_part_name.c_str(), mat_id, file_id, graphics_times(file_id) );
                     fprintf(out[0], "      </Piece>\n");
@@ -4676,7 +4680,7 @@ public:
 
             close_output(out[0], filename);
 
-        } // end for file_id
+        }
 
     } // end vtm
 
-- 
2.43.0


From 3cecd8b678b1bf9e1d3672aee047ca4ce04e77eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:12 +0000
Subject: [PATCH 43/81] fix: EnSight accelerations use the current velocity of
 the previous step

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index 2931a0c..146abda 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -3043,6 +3043,7 @@ public:
         // nodal values
         State.node.coords.update_host();
         State.node.vel.update_host();
+        State.node.vel_n0.update_host();
         State.node.mass.update_host();
 
         Kokkos::fence();
-- 
2.43.0


From d57018aa1c9b17198b9a352a31d56903e989480f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:12 +0000
Subject: [PATCH 44/81] fix: the curl limiter of the axisymmetric MARS models
 uses the magnitude of the curl

---
 .../src/material_models/artificial_viscosity/mars.hpp         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/material_models/artificial_viscosity/mars.hpp b/apps/multiphysics/src/material_models/artificial_viscosity/mars.hpp
index 786812d..c7b5fa2 100644
--- a/apps/multiphysics/src/material_models/artificial_viscosity/mars.hpp
+++ b/apps/multiphysics/src/material_models/artificial_viscosity/mars.hpp
@@ -712,7 +712,7 @@ namespace MARSRZDissipationModel {
     double curl;
     curl = GaussPoints_vel_grad(elem_gid, 1, 0) - GaussPoints_vel_grad(elem_gid, 0, 1);  // dv/dx - du/dy
 
-    double mag_curl = curl;
+    double mag_curl = fabs(curl);
 
         
     // ---- Multidirectional Approximate Riemann solver (MARS) ----
@@ -986,7 +986,7 @@ namespace DirMARSRZDissipationModel {
     double curl;
     curl = GaussPoints_vel_grad(elem_gid, 1, 0) - GaussPoints_vel_grad(elem_gid, 0, 1);  // dv/dx - du/dy
 
-    double mag_curl = curl;
+    double mag_curl = fabs(curl);
 
 
     // --- Calculate edge normals of a corner ---
-- 
2.43.0


From 3e882dfc9d89c0dba1424a76c971881eb0f39d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:21 +0000
Subject: [PATCH 45/81] fix: the directional MARS options select the
 directional dissipation models

---
 apps/multiphysics/src/input/parse_material_inputs.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/parse_material_inputs.cpp b/apps/multiphysics/src/input/parse_material_inputs.cpp
index d507f78..aa639a3 100644
--- a/apps/multiphysics/src/input/parse_material_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_material_inputs.cpp
@@ -638,7 +638,7 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
                             Materials.MaterialEnums.host(mat_id).DissipationModels = model::directionalMARS;
                             RUN({
                                 Materials.MaterialEnums(mat_id).DissipationModels = model::directionalMARS;
-                                Materials.MaterialFunctions(mat_id).calc_dissipation = &MARSDissipationModel::calc_dissipation;
+                                Materials.MaterialFunctions(mat_id).calc_dissipation = &DirMARSDissipationModel::calc_dissipation;
                             });
                             break;
                         //
@@ -652,7 +652,7 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
                             Materials.MaterialEnums.host(mat_id).DissipationModels = model::directionalMARSRZ;
                             RUN({
                                 Materials.MaterialEnums(mat_id).DissipationModels = model::directionalMARSRZ;
-                                Materials.MaterialFunctions(mat_id).calc_dissipation = &MARSRZDissipationModel::calc_dissipation;
+                                Materials.MaterialFunctions(mat_id).calc_dissipation = &DirMARSRZDissipationModel::calc_dissipation;
                             });
                             break;                        
                         default:
-- 
2.43.0


From 9ffa41c96b99b6f22a39a9fa5180f36bc9344c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:33 +0000
Subject: [PATCH 46/81] fix: the axisymmetric hypo-plastic strength model uses
 the Jaumann stress rate

---
 .../strength/decoupled_plasticity.hpp         | 26 +++++++------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/apps/multiphysics/src/material_models/strength/decoupled_plasticity.hpp b/apps/multiphysics/src/material_models/strength/decoupled_plasticity.hpp
index 64c0735..3fdf373 100644
--- a/apps/multiphysics/src/material_models/strength/decoupled_plasticity.hpp
+++ b/apps/multiphysics/src/material_models/strength/decoupled_plasticity.hpp
@@ -533,9 +533,6 @@ namespace HypoPlasticityRZModel {
         // Note: Rotation is only on the first two equations, not hoop stress term
         // ----------------------------------------------------------------------
         
-        // calculate the RHS for the Jaumann rate for an elastic response in 2D RZ and state
-        double term = (s_dev_n(0, 0) - s_dev_n(1, 1))/2.0;
-
         // setup for the identity matrix
         double eye_size[9];
         ViewCArrayKokkos <double> eye(eye_size, 3, 3);
@@ -629,19 +626,16 @@ namespace HypoPlasticityRZModel {
         else {
                 
             
-            // Equations according to Mark Wilkins 1963
-            stress_dev_rhs(0, 0) = (2.0 * G_stress * (D(0, 0) - ((div / 3.0)*eye(0, 0)))) + (term*(((D(0, 1)*s_dev(1, 0))+(s_dev(0, 1)*D(1, 0))) + ((D(0, 0)*s_dev(0, 0))+(s_dev(0, 0)*D(0, 0)))))
-                                        + s_dev_n(0, 1)*((W(0, 1) * s_dev(1, 0)) - (s_dev(0, 1) * W(1, 0)));
-            stress_dev_rhs(0, 1) = (G_stress * D(0, 1)) + ((s_dev_n(0, 1)*((((D(0, 0)*s_dev(0, 1))+(s_dev(0, 0)*D(0, 1))) + ((D(0, 1)*s_dev(1, 1))+(s_dev(0, 1)*D(1, 1))))))
-                                    - term*(((W(0, 0) * s_dev(0, 1)) - (s_dev(0, 0) * W(0, 1)))+ ((W(0, 1)*s_dev(1, 1))-(s_dev(0, 1)*W(1, 1)))));
-            stress_dev_rhs(0, 2) = 0.0;
-            stress_dev_rhs(1, 0) = (G_stress * D(1, 0)) + ((s_dev_n(1, 0)*((((D(1, 0)*s_dev(0, 0))+(s_dev(1, 0)*D(0, 0))) + ((D(1, 1)*s_dev(1, 0))+(s_dev(1, 1)*D(1, 0))))))
-                                    - term*(((W(1, 0) * s_dev(0, 0)) - (s_dev(1, 0) * W(0, 0))) + ((W(1, 1)*s_dev(1, 0))-(s_dev(1, 1)*W(1, 0)))));
-            stress_dev_rhs(1, 1) = (2.0 * G_stress * (D(1, 1) - ((div / 3.0)*eye(1, 1)))) + ((W(1, 0) * s_dev(0, 1)) - (s_dev(1, 0) * W(0, 1)));
-            stress_dev_rhs(1, 2) = 0.0;
-            stress_dev_rhs(2, 0) = 0.0;
-            stress_dev_rhs(2, 1) = 0.0;
-            stress_dev_rhs(2, 2) = (2.0 * G_stress * (D(2, 2) - ((div / 3.0)*eye(2, 2))));
+            // the Jaumann rate, d(s_dev)/dt = 2G(D - div/3 I) + W*s_dev - s_dev*W,
+            // the shear and hoop stress components that are out of the RZ plane are zero
+            for (int i = 0; i < 3; i++) {
+                for (int j = 0; j < 3; j++) {
+                    stress_dev_rhs(i, j) = 2.0 * G_stress * (D(i, j) - ((div / 3.0) * eye(i, j)));
+                    for (int k = 0; k < 3; k++) {
+                        stress_dev_rhs(i, j) += W(i, k) * s_dev(k, j) - s_dev(i, k) * W(k, j);
+                    }
+                }
+            }
 
             // calculate the next stress
             for (int i = 0; i < num_dims; i++) {
-- 
2.43.0


From 85959eb845b67c21650d0ceae61c2dda1837e89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:07 +0000
Subject: [PATCH 47/81] fix: an eroded material point does not remove the
 corner forces of other materials

---
 apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp    | 1 -
 apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp
index 79391ed..e66c77f 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp
@@ -210,7 +210,6 @@ void SGH3D::get_force(const Material_t& Materials,
             // loop over dimensions and calc corner forces
             if (MaterialPoints_eroded(mat_id, mat_point_sid) == true) { // material(mat_id).blank_mat_id)
                 for (size_t dim = 0; dim < num_dims; dim++) {
-                    corner_force(corner_gid, dim) = 0.0;
                     MaterialCorners_force(mat_id, mat_corner_lid, dim) = 0.0;
                 }
             }
diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp
index 55583c2..acbf973 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp
@@ -217,7 +217,6 @@ void SGHRZ::get_force_rz(const Material_t& Materials,
             // loop over dimensions and calc corner forces
             if (MaterialPoints_eroded(mat_id, mat_point_sid) == true) { 
                 for (int dim = 0; dim < num_dims; dim++) {
-                    corner_force(corner_gid, dim) = 0.0;
                     MaterialCorners_force(mat_id, mat_corner_lid, dim) = 0.0;
                 }
             }
-- 
2.43.0


From 99fb118acd7f93f97b09d70ef010c2fcec60e0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 48/81] fix: an array of coordinates that is not understood is
 refused

---
 apps/multiphysics/src/common/include/string_utils.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/apps/multiphysics/src/common/include/string_utils.hpp b/apps/multiphysics/src/common/include/string_utils.hpp
index ce44f1d..a25ef81 100644
--- a/apps/multiphysics/src/common/include/string_utils.hpp
+++ b/apps/multiphysics/src/common/include/string_utils.hpp
@@ -84,6 +84,11 @@ inline std::vector<std::string> exact_array_values(std::string s, std::string de
     std::string token;
     std::vector<std::string> res;
 
+    // the values must be listed between [ and ]
+    if (s.size() < 2 || s.front() != '[' || s.back() != ']') {
+        throw std::runtime_error("**** ARRAY OF VALUES NOT UNDERSTOOD: " + s + " ****");
+    }
+
     // remove first and last char in the string, which are [ and ]
     s.erase(s.begin());
     s.erase(s.end() - 1);
@@ -96,6 +101,12 @@ inline std::vector<std::string> exact_array_values(std::string s, std::string de
     }
 
     res.push_back(s.substr(pos_start));
+
+    // a coordinate has at least two values
+    if (res.size() < 2) {
+        throw std::runtime_error("**** ARRAY NEEDS TWO OR THREE VALUES: [" + s + "] ****");
+    }
+
     return res;
 } // end of extract_array_values
 
-- 
2.43.0


From 82fa30b0c37b509a8ee1f814f68921e7af7b03d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 49/81] fix: a region with an unknown solver_id or material_id
 is refused

---
 apps/multiphysics/src/input/parse_regions.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/apps/multiphysics/src/input/parse_regions.cpp b/apps/multiphysics/src/input/parse_regions.cpp
index a1c6798..45b028b 100644
--- a/apps/multiphysics/src/input/parse_regions.cpp
+++ b/apps/multiphysics/src/input/parse_regions.cpp
@@ -125,6 +125,12 @@ void parse_regions(Yaml::Node& root,
             // set the values
             if (a_word.compare("solver_id") == 0) {
                 int solver_id = root["regions"][reg_id]["region"][a_word].As<int>();
+
+                // the solver must exist
+                if (solver_id < 0 || solver_id >= (int)num_solvers) {
+                    std::cout << "ERROR: invalid solver_id under region: " << solver_id << std::endl;
+                    throw std::runtime_error("**** Region solver_id Not Understood ****");
+                }
                 
                 // get the local id for filling this region
                 size_t fill_lid = num_reg_fills_in_solver.host(solver_id);
@@ -140,6 +146,12 @@ void parse_regions(Yaml::Node& root,
             else if (a_word.compare("material_id") == 0) {
                 int id = root["regions"][reg_id]["region"][a_word].As<int>();
 
+                // the material must exist
+                if (id < 0 || id >= (int)root["materials"].Size()) {
+                    std::cout << "ERROR: invalid material_id under region: " << id << std::endl;
+                    throw std::runtime_error("**** Region material_id Not Understood ****");
+                }
+
                 RUN({
                     region_fills(reg_id).material_id = id;
                 });
-- 
2.43.0


From dd396addd02c17fb5a8e836ed81f536fdc5c29ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:33 +0000
Subject: [PATCH 50/81] fix: an unknown region volume type is refused

---
 apps/multiphysics/src/input/parse_regions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/multiphysics/src/input/parse_regions.cpp b/apps/multiphysics/src/input/parse_regions.cpp
index 45b028b..25d6c04 100644
--- a/apps/multiphysics/src/input/parse_regions.cpp
+++ b/apps/multiphysics/src/input/parse_regions.cpp
@@ -1452,6 +1452,10 @@ void parse_regions(Yaml::Node& root,
                                     throw std::runtime_error("**** Region Volume Fill Type Not Understood ****");
                                     break;
                             } // end switch
+                        }
+                        else{
+                            std::cout << "ERROR: invalid input: " << type << std::endl;
+                            throw std::runtime_error("**** Region Volume Fill Type Not Understood ****");
                         } // end if on setting volume tag
 
                     }  // end if on volume type
-- 
2.43.0


From 2b36c669506478193ca2312a104ab3e7b9dfe96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:33 +0000
Subject: [PATCH 51/81] fix: missing EOS and strength parameters and an unknown
 EOS type are refused

---
 .../src/input/parse_material_inputs.cpp       | 39 +++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/apps/multiphysics/src/input/parse_material_inputs.cpp b/apps/multiphysics/src/input/parse_material_inputs.cpp
index aa639a3..81a9087 100644
--- a/apps/multiphysics/src/input/parse_material_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_material_inputs.cpp
@@ -260,6 +260,7 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
                 } 
                 else{
                     std::cout << "ERROR: invalid eos type input: " << type << std::endl;
+                    throw std::runtime_error("**** EOS Type Not Understood ****");
                 } // end if
             }
             //
@@ -907,6 +908,44 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
                 throw std::runtime_error("**** Material Input Not Understood ****");
             }
         } // end for words in material
+
+
+        // --- the models read a minimum number of parameters ---
+        auto num_values = [&](const std::string& word) -> size_t {
+            for (auto& a_word : user_str_material_inps) {
+                if (a_word.compare(word) == 0) return inps_yaml[word].Size();
+            }
+            return 0;
+        };
+
+        size_t num_eos_vars_needed = 0;
+        switch(Materials.MaterialEnums.host(mat_id).EOSModels){
+            case model::gammaLawGasEOS:   num_eos_vars_needed = 2; break; // gamma, min sound speed
+            case model::linearElasticEOS: num_eos_vars_needed = 4; break; // bulk and shear modulus, density, min sound speed
+            default: break;
+        }
+        if (num_values("eos_global_vars") < num_eos_vars_needed){
+            std::cout << "ERROR: the EOS of material " << mat_id << " needs " << num_eos_vars_needed << " eos_global_vars" << std::endl;
+            throw std::runtime_error("**** Not enough eos_global_vars were given ****");
+        }
+
+        for (auto& a_word : user_str_material_inps) {
+            if (a_word.compare("strength_model") != 0) continue;
+
+            size_t num_strength_vars_needed = 0;
+            switch(strength_models_map[inps_yaml[a_word].As<std::string>()]){
+                case model::hypoPlasticityStrength:
+                case model::hypoPlasticityStrengthRZ:
+                case model::hypoElasticPlasticStrength:
+                case model::hypoElasticPlasticStrengthRZ:
+                    num_strength_vars_needed = 2; break; // shear modulus, yield stress
+                default: break;
+            }
+            if (num_values("strength_global_vars") < num_strength_vars_needed){
+                std::cout << "ERROR: the strength model of material " << mat_id << " needs " << num_strength_vars_needed << " strength_global_vars" << std::endl;
+                throw std::runtime_error("**** Not enough strength_global_vars were given ****");
+            }
+        }
     } // end loop over materials
 
     // allocate ragged right memory to hold the model global variables
-- 
2.43.0


From d5a0dffaf339784f7619a4f133ede739b4fb217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:33 +0000
Subject: [PATCH 52/81] fix: missing boundary condition parameters and an
 unknown temperature model are refused

---
 .../src/input/parse_bdy_conds_inputs.cpp      | 53 ++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp b/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
index a8cbf1a..8c31c12 100644
--- a/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
@@ -371,6 +371,10 @@ void parse_bcs(Yaml::Node& root, BoundaryCondition_t& BoundaryConditions, const
                             break;
                     }
                 }
+                else{
+                    std::cout << "ERROR: invalid boundary condition option input in YAML file: " << temperature_model << std::endl;
+                    throw std::runtime_error("**** Boundary Condition Temperature Model Not Understood ****");
+                } // end if
 
             }   
 
@@ -707,7 +711,54 @@ void parse_bcs(Yaml::Node& root, BoundaryCondition_t& BoundaryConditions, const
         } // end for words in boundary conditions
 
 
-        // add checks for velocity vs time boundary condition
+        // --- the models read a minimum number of parameters ---
+        auto check_num_values = [&](const std::string& model, const std::string& word, const size_t num_needed) {
+            size_t num_values = 0;
+            for (auto& a_word : user_str_bc_inps) {
+                if (a_word.compare(word) == 0) num_values = bc_yaml[bc_id]["boundary_condition"][word].Size();
+            }
+            if (num_values < num_needed){
+                std::cout << "ERROR: boundary condition " << model << " needs " << num_needed << " " << word << std::endl;
+                throw std::runtime_error("**** Not enough boundary condition global vars were given ****");
+            }
+        };
+
+        for (auto& a_word : user_str_bc_inps) {
+            std::string model;
+            if (a_word.compare("velocity_model") == 0 || a_word.compare("temperature_model") == 0 || a_word.compare("stress_model") == 0){
+                model = bc_yaml[bc_id]["boundary_condition"][a_word].As<std::string>();
+            }
+
+            if (a_word.compare("velocity_model") == 0) {
+                switch(bc_velocity_model_map[model]){
+                    case boundary_conditions::constantVelocityBC:
+                    case boundary_conditions::reflectedVelocityBC:
+                        check_num_values(model, "velocity_bc_global_vars", root["mesh_options"]["num_dims"].As<size_t>()); break;
+                    case boundary_conditions::userDefinedVelocityBC:
+                        check_num_values(model, "velocity_bc_global_vars", 1); break;
+                    case boundary_conditions::timeVaryingVelocityBC:
+                        check_num_values(model, "velocity_bc_global_vars", 7); break;
+                    case boundary_conditions::pistonVelocityBC:
+                        check_num_values(model, "velocity_bc_global_vars", 8); break;
+                    default: break;
+                }
+            }
+            else if (a_word.compare("temperature_model") == 0) {
+                if (bc_temperature_model_map[model] == boundary_conditions::constantTemperatureBC){
+                    check_num_values(model, "temperature_bc_global_vars", 1);
+                }
+            }
+            else if (a_word.compare("stress_model") == 0) {
+                switch(bc_stress_model_map[model]){
+                    case boundary_conditions::constantStressBC:
+                    case boundary_conditions::fractureStressBC:
+                        check_num_values(model, "stress_bc_global_vars", 6); break;
+                    case boundary_conditions::timeVaryingStressBC:
+                        check_num_values(model, "stress_bc_global_vars", 9); break;
+                    default: break;
+                }
+            }
+        }
 
 
     } // end loop over BCs specified
-- 
2.43.0


From b0c2a6bc2d719ab1af1f61f212a5db6aa05c9595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:25 +0000
Subject: [PATCH 53/81] fix: output fields that no solver of the simulation has
 are refused

---
 apps/multiphysics/src/driver.cpp | 50 ++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/apps/multiphysics/src/driver.cpp b/apps/multiphysics/src/driver.cpp
index e2588c9..7c2e56e 100644
--- a/apps/multiphysics/src/driver.cpp
+++ b/apps/multiphysics/src/driver.cpp
@@ -36,6 +36,10 @@ ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 // Resolve relative mesh file paths relative to the YAML input directory.
 #include <filesystem>
+#include <algorithm>
+#include <stdexcept>
+#include <string>
+#include <vector>
 
 // Headers for solver classes
 #include "sgh_solver_3D.hpp"
@@ -111,6 +115,19 @@ void Driver::initialize()
     build_boundry_node_sets(mesh);
 
 
+    // the fields that the solvers allocate, only these can be written to a file
+    std::vector<node_state> node_fields;
+    std::vector<gauss_pt_state> gauss_pt_fields;
+    std::vector<material_pt_state> mat_pt_fields;
+
+    auto add_fields = [&](const std::vector<node_state>& node_state_list,
+                          const std::vector<gauss_pt_state>& gauss_pt_state_list,
+                          const std::vector<material_pt_state>& mat_pt_state_list) {
+        node_fields.insert(node_fields.end(), node_state_list.begin(), node_state_list.end());
+        gauss_pt_fields.insert(gauss_pt_fields.end(), gauss_pt_state_list.begin(), gauss_pt_state_list.end());
+        mat_pt_fields.insert(mat_pt_fields.end(), mat_pt_state_list.begin(), mat_pt_state_list.end());
+    };
+
     // Setup the Solvers
     double time_final = SimulationParamaters.dynamic_options.time_final;
     for (size_t solver_id = 0; solver_id < SimulationParamaters.solver_inputs.size(); solver_id++) {
@@ -126,6 +143,10 @@ void Driver::initialize()
                                    BoundaryConditions,
                                    State);
 
+            add_fields(SGH3D_State::required_node_state,
+                       SGH3D_State::required_gauss_pt_state,
+                       SGH3D_State::required_material_pt_state);
+
             // set the variables in the solver class
             setup_solver_vars(sgh_solver, 
                               solver_id);
@@ -145,6 +166,10 @@ void Driver::initialize()
                                    BoundaryConditions,
                                    State);
 
+            add_fields(SGHRZ_State::required_node_state,
+                       SGHRZ_State::required_gauss_pt_state,
+                       SGHRZ_State::required_material_pt_state);
+
             // set the variables in the solver class
             setup_solver_vars(sgh_solver_rz, 
                               solver_id);
@@ -162,6 +187,10 @@ void Driver::initialize()
                                        BoundaryConditions,
                                        State);
 
+            add_fields(SGTM3D_State::required_node_state,
+                       SGTM3D_State::required_gauss_pt_state,
+                       SGTM3D_State::required_material_pt_state);
+
             // set the variables in the solver class
             setup_solver_vars(sgtm_solver_3d, 
                               solver_id);
@@ -180,6 +209,10 @@ void Driver::initialize()
                                          BoundaryConditions,
                                          State);
 
+            add_fields(LevelSet_State::required_node_state,
+                       LevelSet_State::required_gauss_pt_state,
+                       LevelSet_State::required_material_pt_state);
+
             // set the variables in the solver class
             setup_solver_vars(level_set_solver, 
                               solver_id);
@@ -196,6 +229,10 @@ void Driver::initialize()
                                     mesh, 
                                     BoundaryConditions, State);
 
+            add_fields(TLQS3D_State::required_node_state,
+                       TLQS3D_State::required_gauss_pt_state,
+                       TLQS3D_State::required_material_pt_state);
+
             // set the variables in the solver class
             setup_solver_vars(tlqs_solver, 
                               solver_id);
@@ -212,6 +249,19 @@ void Driver::initialize()
 
     } // end for loop over solvers
 
+    // check that the requested output fields exist
+    auto check_fields = [](const auto& requested, const auto& available, const std::string& name) {
+        for (auto field : requested) {
+            if (std::find(available.begin(), available.end(), field) == available.end()) {
+                throw std::runtime_error("**** A requested field in " + name + " does not exist in the solvers of this simulation ****");
+            }
+        }
+    };
+    check_fields(SimulationParamaters.output_options.output_node_state, node_fields, "node_field_outputs");
+    check_fields(SimulationParamaters.output_options.output_gauss_pt_state, gauss_pt_fields, "gauss_pt_field_outputs");
+    check_fields(SimulationParamaters.output_options.output_mat_pt_state, mat_pt_fields, "mat_pt_field_outputs");
+    check_fields(SimulationParamaters.output_options.output_elem_state, mat_pt_fields, "elem_field_outputs");
+
 
     // ----
     // setup the simulation by applying all the fills to the mesh
-- 
2.43.0


From d668d5390c371a843a7e149342aaeb4946d27f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:25 +0000
Subject: [PATCH 54/81] fix: an input file that is not understood is reported
 by the exit status

---
 apps/multiphysics/src/driver.cpp                  | 2 +-
 apps/multiphysics/src/input/parse_mesh_inputs.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/driver.cpp b/apps/multiphysics/src/driver.cpp
index 7c2e56e..5b5daa2 100644
--- a/apps/multiphysics/src/driver.cpp
+++ b/apps/multiphysics/src/driver.cpp
@@ -64,7 +64,7 @@ void Driver::initialize()
     catch (const Yaml::Exception e)
     {
         std::cout << "Exception " << e.Type() << ": " << e.what() << std::endl;
-        exit(0);
+        exit(1);
     }
 
     parse_yaml(root, SimulationParamaters, Materials, BoundaryConditions);
diff --git a/apps/multiphysics/src/input/parse_mesh_inputs.cpp b/apps/multiphysics/src/input/parse_mesh_inputs.cpp
index 31817c2..84e47c5 100644
--- a/apps/multiphysics/src/input/parse_mesh_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_mesh_inputs.cpp
@@ -301,7 +301,7 @@ void parse_mesh_inputs(Yaml::Node& root, mesh_input_t& mesh_input)
             // check to see if a file path was set
             if(mesh_input.file_path.size()>0){
                 std::cout << "ERROR: When the mesh source is set to generate, a mesh file cannot be passed in" << std::endl;
-                exit(0);
+                exit(1);
             }
 
         }
-- 
2.43.0


From 20b222d6a307ac9a64760794cb9e46351fb2aee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 55/81] fix: a material without an EOS or strength model does
 not call a null function

---
 .../src/input/parse_material_inputs.cpp             | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/apps/multiphysics/src/input/parse_material_inputs.cpp b/apps/multiphysics/src/input/parse_material_inputs.cpp
index 81a9087..046becb 100644
--- a/apps/multiphysics/src/input/parse_material_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_material_inputs.cpp
@@ -929,9 +929,12 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
             throw std::runtime_error("**** Not enough eos_global_vars were given ****");
         }
 
+        bool strength_model_set = false;
         for (auto& a_word : user_str_material_inps) {
             if (a_word.compare("strength_model") != 0) continue;
 
+            strength_model_set = true;
+
             size_t num_strength_vars_needed = 0;
             switch(strength_models_map[inps_yaml[a_word].As<std::string>()]){
                 case model::hypoPlasticityStrength:
@@ -946,6 +949,10 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
                 throw std::runtime_error("**** Not enough strength_global_vars were given ****");
             }
         }
+        if (Materials.MaterialEnums.host(mat_id).StrengthType != model::noStrengthType && !strength_model_set){
+            std::cout << "ERROR: material " << mat_id << " has a strength_model_type but no strength_model" << std::endl;
+            throw std::runtime_error("**** No strength_model was given ****");
+        }
     } // end loop over materials
 
     // allocate ragged right memory to hold the model global variables
@@ -1000,6 +1007,12 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
                             "EOS parameters were given, but the 'no_eos' model was specified.  An EOS must be specified. \n"
                             "********************************************************************************************\n");
         }
+        if (Materials.MaterialFunctions(mat_id).calc_pressure == NULL) {
+
+            // the default is no EOS, set the fcn pointers
+            Materials.MaterialFunctions(mat_id).calc_pressure    = &NoEOSModel::calc_pressure;
+            Materials.MaterialFunctions(mat_id).calc_sound_speed = &NoEOSModel::calc_sound_speed;
+        }
         if (Materials.num_eos_global_vars(mat_id)==0 && Materials.MaterialFunctions(mat_id).calc_pressure != NULL) {
 
             if(Materials.MaterialEnums(mat_id).EOSModels != model::noEOS){ 
-- 
2.43.0


From 173044cd6e3fc6385ba3344c7aa983c73a01d137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 56/81] fix: an input file without regions is refused

---
 apps/multiphysics/src/input/parse_regions.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apps/multiphysics/src/input/parse_regions.cpp b/apps/multiphysics/src/input/parse_regions.cpp
index 25d6c04..e788e10 100644
--- a/apps/multiphysics/src/input/parse_regions.cpp
+++ b/apps/multiphysics/src/input/parse_regions.cpp
@@ -100,6 +100,11 @@ void parse_regions(Yaml::Node& root,
 
     size_t num_regions = region_yaml.Size();
 
+    if (num_regions == 0) {
+        std::cout << "ERROR: No regions were specified in the input file" << std::endl;
+        throw std::runtime_error("**** No regions were specified in the input file ****");
+    }
+
     // reg_fills_in_solver(solver_id, fill_lid) = fill_id
     reg_fills_in_solver = DCArrayKokkos<size_t>(num_solvers, num_regions, "sim_param.region_setup.reg_fills_in_solver");
     region_fills = CArrayKokkos<RegionFill_t>(num_regions , "sim_param.region_setup.region_fills");
-- 
2.43.0


From 1e656b43fc8be26f4b05b0b32c2e55af8ab0bdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 57/81] fix: a region that sets no internal energy does not
 read an array that does not exist

---
 apps/multiphysics/src/common/src/region_fill.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 92db473..6d0384c 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -799,10 +799,14 @@ void material_state_setup(SimulationParameters_t& SimulationParamaters,
                             State.MaterialPoints.sie.host(mat_id,mat_point_sid) = 
                                 fillGaussState.sie.host(gauss_gid,a_mat_in_elem);
                         }
-                        else {
+                        else if (fillGaussState.ie.size()>0) {
                             State.MaterialPoints.sie.host(mat_id,mat_point_sid) = 
                                 fillGaussState.ie.host(gauss_gid,a_mat_in_elem)/State.MaterialPoints.mass.host(mat_id,mat_point_sid);
                         }
+                        else {
+                            // the region does not set the internal energy
+                            State.MaterialPoints.sie.host(mat_id,mat_point_sid) = 0.0;
+                        }
                     
                 }
 
-- 
2.43.0


From ebb06b770ac48ec1e197928899182b1f928d6e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 58/81] fix: the axisymmetric solver refuses regions without
 density or energy

---
 .../SGH_solver_rz/include/sgh_solver_rz.hpp     | 14 ++++++++++++++
 .../SGH_solver_rz/src/sgh_initialize_rz.cpp     | 17 +++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/include/sgh_solver_rz.hpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/include/sgh_solver_rz.hpp
index ac397ab..48200ed 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/include/sgh_solver_rz.hpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/include/sgh_solver_rz.hpp
@@ -96,6 +96,20 @@ namespace SGHRZ_State
         corner_state::force,
         corner_state::mass
     };
+
+    // Material point state that must be filled (setup) for the SGHRZ solver
+    // option A
+    static const std::vector<fill_gauss_state> required_optA_fill_material_pt_state = 
+    { 
+       fill_gauss_state::density,
+       fill_gauss_state::specific_internal_energy
+    };
+    // option B
+    static const std::vector<fill_gauss_state> required_optB_fill_material_pt_state = 
+    { 
+       fill_gauss_state::density,
+       fill_gauss_state::internal_energy
+    };
 }
 
 /////////////////////////////////////////////////////////////////////////////
diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_initialize_rz.cpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_initialize_rz.cpp
index 23dfe41..5a08d32 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_initialize_rz.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_initialize_rz.cpp
@@ -80,6 +80,23 @@ void SGHRZ::initialize_material_state(SimulationParameters_t& SimulationParamate
     // zones are not used
     
     // NOTE: Material points are populated in the material_state_setup funcion
+
+    // check that the fills specify the required material point state fields
+    bool filled_material_state_A =
+        check_fill_mat_states(SGHRZ_State::required_optA_fill_material_pt_state,
+                              SimulationParamaters.region_setups.fill_gauss_states);
+    bool filled_material_state_B =
+        check_fill_mat_states(SGHRZ_State::required_optB_fill_material_pt_state,
+                              SimulationParamaters.region_setups.fill_gauss_states);
+
+    if (filled_material_state_A == false &&
+        filled_material_state_B == false){
+        std::cout <<" Missing required material state in the fill instructions for the dynx_FE_rz solver \n";
+        std::cout <<" The required state: \n";
+        std::cout <<"  - density \n";
+        std::cout <<"  - specific or extensive internal energy \n" << std::endl;
+        throw std::runtime_error("**** Provide fill instructions for all required material point variables ****");
+    }
     
     return;
 
-- 
2.43.0


From 3ff9bf86f72dd64ce425c431b0152a13847c3c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 59/81] fix: the level-set solver writes the gradient of the
 level set, not its negative

---
 .../src/Solvers/level_set_solver/src/solver_functions.cpp     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp b/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp
index 23a4078..f61f82c 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp
@@ -89,7 +89,7 @@ void LevelSet::nodal_gradient(
         }
 
         if(mesh.num_dims==3){
-            // get the B matrix which are the inward corner area normals or the elem
+            // get the B matrix which are the outward corner area normals of the elem
             geometry::get_bmatrix(area_normal,
                                   elem_gid,
                                   node_coords,
@@ -109,7 +109,7 @@ void LevelSet::nodal_gradient(
 
             // save the corner normal (inward pointing from the element)
             for (size_t dim = 0; dim < mesh.num_dims; dim++) {
-                corner_normal(corner_gid, dim) = area_normal(corner_lid, dim);
+                corner_normal(corner_gid, dim) = -area_normal(corner_lid, dim);
             } // end loop over dimension
 
             // save the corner volume
-- 
2.43.0


From fad8172a22becbab38dfed6559dd6a6a082ffdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 60/81] fix: the thermal solver reads the heat source power
 from host memory

---
 .../src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
index ad72b22..5f74080 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
@@ -283,7 +283,7 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
 
                 // ---- Calculate the corner heat flux from moving volumetric heat source ----
                 if (SimulationParamaters.solver_inputs[this->solver_id].use_moving_heat_source) {
-                    double power = path.get_power(time_value);
+                    double power = path.tool_path_table.linear_interpolation_host(time_value, ToolPathInfo::Fields::power, ToolPathInfo::Fields::time);
                     moving_flux(
                         Materials,
                         mesh,
-- 
2.43.0


From f9129c58684cc54bc41cb95756712dca90638b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 61/81] fix: a property without a table does not call a null
 function with the moving heat source

---
 .../src/Solvers/SGTM_solver_3D/src/properties.cpp  | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/properties.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/properties.cpp
index e84af1d..99f9d8c 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/properties.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/properties.cpp
@@ -90,10 +90,16 @@ void SGTM3D::update_properties(
             avg_temp += node_temp(node_gid) / (double)num_nodes_in_elem;
         }
 
-        // Use that temperature to update the element state using the tabular properties
-        MaterialPoints_den(mat_id, mat_elem_sid) = Materials.MaterialFunctions(mat_id).get_density_from_temperature(density_table, avg_temp);
-        MaterialPoints_conductivity(mat_id, mat_elem_sid) = Materials.MaterialFunctions(mat_id).get_thermal_conductivity_from_temperature(thermal_conductivity_table, avg_temp);
-        MaterialPoints_specific_heat(mat_id, mat_elem_sid) = Materials.MaterialFunctions(mat_id).get_specific_heat_from_temperature(specific_heat_table, avg_temp);
+        // Use that temperature to update the element state using the tabular properties, a property without a table keeps its value
+        if (Materials.MaterialFunctions(mat_id).get_density_from_temperature != NULL) {
+            MaterialPoints_den(mat_id, mat_elem_sid) = Materials.MaterialFunctions(mat_id).get_density_from_temperature(density_table, avg_temp);
+        }
+        if (Materials.MaterialFunctions(mat_id).get_thermal_conductivity_from_temperature != NULL) {
+            MaterialPoints_conductivity(mat_id, mat_elem_sid) = Materials.MaterialFunctions(mat_id).get_thermal_conductivity_from_temperature(thermal_conductivity_table, avg_temp);
+        }
+        if (Materials.MaterialFunctions(mat_id).get_specific_heat_from_temperature != NULL) {
+            MaterialPoints_specific_heat(mat_id, mat_elem_sid) = Materials.MaterialFunctions(mat_id).get_specific_heat_from_temperature(specific_heat_table, avg_temp);
+        }
 
     });
 
-- 
2.43.0


From 92dd1585f4191ce4d0de6b5fd7fc313355447d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:19 +0000
Subject: [PATCH 62/81] fix: EVPFFT phase 1 volume fraction counts the voxels
 of all ranks

---
 apps/micromechanics/EVPFFT/src/data_grain.cpp       | 2 ++
 apps/micromechanics/LS-EVPFFT-J2/src/data_grain.cpp | 2 ++
 apps/micromechanics/LS-EVPFFT/src/data_grain.cpp    | 2 ++
 apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp  | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/apps/micromechanics/EVPFFT/src/data_grain.cpp b/apps/micromechanics/EVPFFT/src/data_grain.cpp
index d9c5fa0..e5c4c7a 100644
--- a/apps/micromechanics/EVPFFT/src/data_grain.cpp
+++ b/apps/micromechanics/EVPFFT/src/data_grain.cpp
@@ -144,6 +144,8 @@ void EVPFFT::data_grain(const std::string & filetext)
   print_array_to_file(c066.host_pointer(), c066.size(), my_rank, "c066.txt");
 #endif
 
+  // count of phase 1 voxels over all ranks
+  MPI_Allreduce(MPI_IN_PLACE, &nph1, 1, MPI_INT, MPI_SUM, mpi_comm);
   wph1 = (1.0*nph1)/(npts1_g*npts2_g*npts3_g);
 
   MatrixTypeRealHost s066(6,6);
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/data_grain.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/data_grain.cpp
index 2fbded4..c707545 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/data_grain.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/data_grain.cpp
@@ -144,6 +144,8 @@ void EVPFFT::data_grain(const std::string & filetext)
   print_array_to_file(c066.host_pointer(), c066.size(), my_rank, "c066.txt");
 #endif
 
+  // count of phase 1 voxels over all ranks
+  MPI_Allreduce(MPI_IN_PLACE, &nph1, 1, MPI_INT, MPI_SUM, mpi_comm);
   wph1 = (1.0*nph1)/(npts1_g*npts2_g*npts3_g);
 
   MatrixTypeRealHost s066(6,6);
diff --git a/apps/micromechanics/LS-EVPFFT/src/data_grain.cpp b/apps/micromechanics/LS-EVPFFT/src/data_grain.cpp
index 2fbded4..c707545 100644
--- a/apps/micromechanics/LS-EVPFFT/src/data_grain.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/data_grain.cpp
@@ -144,6 +144,8 @@ void EVPFFT::data_grain(const std::string & filetext)
   print_array_to_file(c066.host_pointer(), c066.size(), my_rank, "c066.txt");
 #endif
 
+  // count of phase 1 voxels over all ranks
+  MPI_Allreduce(MPI_IN_PLACE, &nph1, 1, MPI_INT, MPI_SUM, mpi_comm);
   wph1 = (1.0*nph1)/(npts1_g*npts2_g*npts3_g);
 
   MatrixTypeRealHost s066(6,6);
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp b/apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp
index 3784294..164f82d 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp
@@ -148,6 +148,8 @@ void EVPFFT::data_grain(const std::string & filetext)
   print_array_to_file(c066.host_pointer(), c066.size(), my_rank, "c066.txt");
 #endif
 
+  // count of phase 1 voxels over all ranks
+  MPI_Allreduce(MPI_IN_PLACE, &nph1, 1, MPI_INT, MPI_SUM, mpi_comm);
   wph1 = (1.0*nph1)/(npts1_g*npts2_g*npts3_g);
 
   MatrixTypeRealHost s066(6,6);
-- 
2.43.0


From ece230587ff105bb3047792d192cd315e24fc557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:19 +0000
Subject: [PATCH 63/81] fix: EVPFFT updates the voxel size from the global
 grid, the same on every rank

---
 apps/micromechanics/EVPFFT/src/step.cpp       | 18 +++++++++++-------
 apps/micromechanics/LS-EVPFFT-J2/src/step.cpp | 18 +++++++++++-------
 apps/micromechanics/LS-EVPFFT/src/step.cpp    | 18 +++++++++++-------
 apps/micromechanics/LSNP-EVPFFT/src/step.cpp  | 18 +++++++++++-------
 4 files changed, 44 insertions(+), 28 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/step.cpp b/apps/micromechanics/EVPFFT/src/step.cpp
index 4557f29..7bece44 100644
--- a/apps/micromechanics/EVPFFT/src/step.cpp
+++ b/apps/micromechanics/EVPFFT/src/step.cpp
@@ -151,18 +151,22 @@ void EVPFFT::step_texture_rve_update()
   Profiler profiler(__FUNCTION__);
 
   //   VELMAX
-  velmax(1) = dsim(1,1)*delt(1)*(npts1-1);
-  velmax(2) = dsim(2,2)*delt(2)*(npts2-1);
-  velmax(3) = dsim(3,3)*delt(3)*(npts3-1);
+  velmax(1) = dsim(1,1)*delt(1)*(npts1_g-1);
+  velmax(2) = dsim(2,2)*delt(2)*(npts2_g-1);
+  velmax(3) = dsim(3,3)*delt(3)*(npts3_g-1);
 
   //   UPDATE ORIENTATIONS
   update_orient();
 
   //   UPDATE DELT
-  delt(1) = (delt(1)*(npts1-1)+velmax(1)*tdot)/(npts1-1);
-  delt(2) = (delt(2)*(npts2-1)+velmax(2)*tdot)/(npts2-1);
-  if (npts3 > 1) {
-     delt(3)=(delt(3)*(npts3-1)+velmax(3)*tdot)/(npts3-1);
+  if (npts1_g > 1) {
+     delt(1) = (delt(1)*(npts1_g-1)+velmax(1)*tdot)/(npts1_g-1);
+  }
+  if (npts2_g > 1) {
+     delt(2) = (delt(2)*(npts2_g-1)+velmax(2)*tdot)/(npts2_g-1);
+  }
+  if (npts3_g > 1) {
+     delt(3)=(delt(3)*(npts3_g-1)+velmax(3)*tdot)/(npts3_g-1);
   }
 
 }
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/step.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/step.cpp
index 33f1e53..de1b32c 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/step.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/step.cpp
@@ -149,18 +149,22 @@ void EVPFFT::step_texture_rve_update()
   Profiler profiler(__FUNCTION__);
 
   //   VELMAX
-  velmax(1) = dsim(1,1)*delt(1)*(npts1-1);
-  velmax(2) = dsim(2,2)*delt(2)*(npts2-1);
-  velmax(3) = dsim(3,3)*delt(3)*(npts3-1);
+  velmax(1) = dsim(1,1)*delt(1)*(npts1_g-1);
+  velmax(2) = dsim(2,2)*delt(2)*(npts2_g-1);
+  velmax(3) = dsim(3,3)*delt(3)*(npts3_g-1);
 
   //   UPDATE ORIENTATIONS
   update_orient();
 
   //   UPDATE DELT
-  delt(1) = (delt(1)*(npts1-1)+velmax(1)*tdot)/(npts1-1);
-  delt(2) = (delt(2)*(npts2-1)+velmax(2)*tdot)/(npts2-1);
-  if (npts3 > 1) {
-     delt(3)=(delt(3)*(npts3-1)+velmax(3)*tdot)/(npts3-1);
+  if (npts1_g > 1) {
+     delt(1) = (delt(1)*(npts1_g-1)+velmax(1)*tdot)/(npts1_g-1);
+  }
+  if (npts2_g > 1) {
+     delt(2) = (delt(2)*(npts2_g-1)+velmax(2)*tdot)/(npts2_g-1);
+  }
+  if (npts3_g > 1) {
+     delt(3)=(delt(3)*(npts3_g-1)+velmax(3)*tdot)/(npts3_g-1);
   }
 
 }
diff --git a/apps/micromechanics/LS-EVPFFT/src/step.cpp b/apps/micromechanics/LS-EVPFFT/src/step.cpp
index 33f1e53..de1b32c 100644
--- a/apps/micromechanics/LS-EVPFFT/src/step.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/step.cpp
@@ -149,18 +149,22 @@ void EVPFFT::step_texture_rve_update()
   Profiler profiler(__FUNCTION__);
 
   //   VELMAX
-  velmax(1) = dsim(1,1)*delt(1)*(npts1-1);
-  velmax(2) = dsim(2,2)*delt(2)*(npts2-1);
-  velmax(3) = dsim(3,3)*delt(3)*(npts3-1);
+  velmax(1) = dsim(1,1)*delt(1)*(npts1_g-1);
+  velmax(2) = dsim(2,2)*delt(2)*(npts2_g-1);
+  velmax(3) = dsim(3,3)*delt(3)*(npts3_g-1);
 
   //   UPDATE ORIENTATIONS
   update_orient();
 
   //   UPDATE DELT
-  delt(1) = (delt(1)*(npts1-1)+velmax(1)*tdot)/(npts1-1);
-  delt(2) = (delt(2)*(npts2-1)+velmax(2)*tdot)/(npts2-1);
-  if (npts3 > 1) {
-     delt(3)=(delt(3)*(npts3-1)+velmax(3)*tdot)/(npts3-1);
+  if (npts1_g > 1) {
+     delt(1) = (delt(1)*(npts1_g-1)+velmax(1)*tdot)/(npts1_g-1);
+  }
+  if (npts2_g > 1) {
+     delt(2) = (delt(2)*(npts2_g-1)+velmax(2)*tdot)/(npts2_g-1);
+  }
+  if (npts3_g > 1) {
+     delt(3)=(delt(3)*(npts3_g-1)+velmax(3)*tdot)/(npts3_g-1);
   }
 
 }
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/step.cpp b/apps/micromechanics/LSNP-EVPFFT/src/step.cpp
index a7f3e5a..3de41ae 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/step.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/step.cpp
@@ -176,18 +176,22 @@ void EVPFFT::step_texture_rve_update()
   Profiler profiler(__FUNCTION__);
 
   //   VELMAX
-  velmax(1) = dsim(1,1)*delt(1)*(npts1-1);
-  velmax(2) = dsim(2,2)*delt(2)*(npts2-1);
-  velmax(3) = dsim(3,3)*delt(3)*(npts3-1);
+  velmax(1) = dsim(1,1)*delt(1)*(npts1_g-1);
+  velmax(2) = dsim(2,2)*delt(2)*(npts2_g-1);
+  velmax(3) = dsim(3,3)*delt(3)*(npts3_g-1);
 
   //   UPDATE ORIENTATIONS
   update_orient();
 
   //   UPDATE DELT
-  delt(1) = (delt(1)*(npts1-1)+velmax(1)*tdot)/(npts1-1);
-  delt(2) = (delt(2)*(npts2-1)+velmax(2)*tdot)/(npts2-1);
-  if (npts3 > 1) {
-     delt(3)=(delt(3)*(npts3-1)+velmax(3)*tdot)/(npts3-1);
+  if (npts1_g > 1) {
+     delt(1) = (delt(1)*(npts1_g-1)+velmax(1)*tdot)/(npts1_g-1);
+  }
+  if (npts2_g > 1) {
+     delt(2) = (delt(2)*(npts2_g-1)+velmax(2)*tdot)/(npts2_g-1);
+  }
+  if (npts3_g > 1) {
+     delt(3)=(delt(3)*(npts3_g-1)+velmax(3)*tdot)/(npts3_g-1);
   }
 
 }
-- 
2.43.0


From 9fd7baf782d5661a9281486f474d1b2451f40205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:54 +0000
Subject: [PATCH 64/81] fix: EVPFFT writes the texture of the whole grid and
 reports a failing tex.out

---
 .../EVPFFT/src/write_texture.cpp              | 91 +++++++++++++-----
 .../LS-EVPFFT-J2/src/write_texture.cpp        | 91 +++++++++++++-----
 .../LS-EVPFFT/src/write_texture.cpp           | 91 +++++++++++++-----
 .../LSNP-EVPFFT/src/write_texture.cpp         | 94 ++++++++++++++-----
 4 files changed, 272 insertions(+), 95 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/write_texture.cpp b/apps/micromechanics/EVPFFT/src/write_texture.cpp
index 4a74171..7e6e784 100644
--- a/apps/micromechanics/EVPFFT/src/write_texture.cpp
+++ b/apps/micromechanics/EVPFFT/src/write_texture.cpp
@@ -1,24 +1,31 @@
 #include "evpfft.h"
 #include "euler.h"
 #include <memory>
+#include <vector>
 #include "Profiler.h"
 
 void EVPFFT::write_texture()
 {
   Profiler profiler(__FUNCTION__);
 
-  if(my_rank == 0) {
+  // what one voxel contributes: its global indices, its angles, its grain and its phase
+  const int n_rec = 8;
 
-    ag.update_host();
+  ag.update_host();
 
-    MatrixTypeRealHost aux33(3,3);
-    MatrixTypeRealHost fbar(3,3);
-    int ig;
-    real_t ph, th, om, one;
+  MatrixTypeRealHost aux33(3,3);
+  MatrixTypeRealHost fbar(3,3);
+  real_t ph, th, om, one;
 
-    std::unique_ptr <FILE, decltype(&fclose)> file_24 (fopen("tex.out", "w"), &fclose);
+  std::unique_ptr <FILE, decltype(&fclose)> file_24 (nullptr, &fclose);
 
-    one = 1.0;
+  one = 1.0;
+
+  if (my_rank == root) {
+    file_24.reset(fopen("tex.out", "w"));
+    if (file_24 == nullptr) {
+      throw std::runtime_error("Can not open tex.out");
+    }
 
     for (int j = 1; j <= 3; j++) {
       for (int i = 1; i <= 3; i++) {
@@ -38,16 +45,21 @@ void EVPFFT::write_texture()
       }
     }
     fprintf(file_24.get(), "\n");
-    fprintf(file_24.get(), "B %10d\n", npts1*npts2*npts3);
+    fprintf(file_24.get(), "B %10d\n", npts1_g*npts2_g*npts3_g);
+  }
 
+  // the root writes the whole grid, one z plane at a time
+  std::vector<double> mine, plane;
+  std::vector<int> counts(num_ranks), displs(num_ranks), where(npts1_g*npts2_g);
 
-    ig = 0;
-    for (int k = 1; k <= npts3; k++) {
+  for (int kg = 0; kg < npts3_g; kg++) {
+
+    mine.clear();
+    if (kg >= local_start3 and kg <= local_end3) {
+      const int k = kg - local_start3 + 1;
       for (int j = 1; j <= npts2; j++) {
         for (int i = 1; i <= npts1; i++) {
 
-          ig += 1;
-
           for (int jj = 1; jj <= 3; jj++) {
             for (int ii = 1; ii <= 3; ii++) {
               aux33(ii,jj) = ag.host(jj,ii,i,j,k);
@@ -56,17 +68,50 @@ void EVPFFT::write_texture()
 
           euler(1,ph,th,om,aux33.pointer());
 
-          fprintf(file_24.get(), 
-                  "%9.3f%9.3f%9.3f%9.3f"
-                  "%5d%5d%5d%5d%5d\n",
-                  ph,th,om,one,
-                  i,j,k,jgrain(i,j,k),jphase.host(i,j,k)
-          );
+          const double rec[n_rec] = {(double)(i+local_start1), (double)(j+local_start2), (double)(kg+1), ph, th, om,
+                                     (double)jgrain(i,j,k), (double)jphase.host(i,j,k)};
+          mine.insert(mine.end(), rec, rec + n_rec);
+
+        } // end for i
+      } // end for j
+    }
+
+    int n_mine = mine.size();
+    MPI_Gather(&n_mine, 1, MPI_INT, counts.data(), 1, MPI_INT, root, mpi_comm);
 
-        } // end for ii
-      } // end for jj
-    } // end for kk
+    int n_plane = 0;
+    for (int r = 0; r < num_ranks; r++) {
+      displs[r] = n_plane;
+      n_plane += counts[r];
+    }
+    if (my_rank == root) plane.resize(n_plane);
+    MPI_Gatherv(mine.data(), n_mine, MPI_DOUBLE, plane.data(), counts.data(), displs.data(), MPI_DOUBLE, root, mpi_comm);
 
-  } // end if(iwtex .eq. 1)
+    if (my_rank == root) {
+      for (int & w : where) w = -1;
+      for (int p = 0; p < n_plane; p += n_rec) {
+        where[(int)(plane[p]-1) + npts1_g*(int)(plane[p+1]-1)] = p;
+      }
+      for (int w : where) {
+        if (w < 0) continue;
+        const double *rec = &plane[w];
+        fprintf(file_24.get(), 
+                "%9.3f%9.3f%9.3f%9.3f"
+                "%5d%5d%5d%5d%5d\n",
+                rec[3],rec[4],rec[5],one,
+                (int)rec[0],(int)rec[1],(int)rec[2],(int)rec[6],(int)rec[7]
+        );
+      }
+    }
+
+  } // end for kg
+
+  if (my_rank == root) {
+    bool failed = ferror(file_24.get());
+    failed = (fclose(file_24.release()) != 0) or failed;
+    if (failed) {
+      throw std::runtime_error("Can not write tex.out");
+    }
+  }
 
 }
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/write_texture.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/write_texture.cpp
index 4a74171..7e6e784 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/write_texture.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/write_texture.cpp
@@ -1,24 +1,31 @@
 #include "evpfft.h"
 #include "euler.h"
 #include <memory>
+#include <vector>
 #include "Profiler.h"
 
 void EVPFFT::write_texture()
 {
   Profiler profiler(__FUNCTION__);
 
-  if(my_rank == 0) {
+  // what one voxel contributes: its global indices, its angles, its grain and its phase
+  const int n_rec = 8;
 
-    ag.update_host();
+  ag.update_host();
 
-    MatrixTypeRealHost aux33(3,3);
-    MatrixTypeRealHost fbar(3,3);
-    int ig;
-    real_t ph, th, om, one;
+  MatrixTypeRealHost aux33(3,3);
+  MatrixTypeRealHost fbar(3,3);
+  real_t ph, th, om, one;
 
-    std::unique_ptr <FILE, decltype(&fclose)> file_24 (fopen("tex.out", "w"), &fclose);
+  std::unique_ptr <FILE, decltype(&fclose)> file_24 (nullptr, &fclose);
 
-    one = 1.0;
+  one = 1.0;
+
+  if (my_rank == root) {
+    file_24.reset(fopen("tex.out", "w"));
+    if (file_24 == nullptr) {
+      throw std::runtime_error("Can not open tex.out");
+    }
 
     for (int j = 1; j <= 3; j++) {
       for (int i = 1; i <= 3; i++) {
@@ -38,16 +45,21 @@ void EVPFFT::write_texture()
       }
     }
     fprintf(file_24.get(), "\n");
-    fprintf(file_24.get(), "B %10d\n", npts1*npts2*npts3);
+    fprintf(file_24.get(), "B %10d\n", npts1_g*npts2_g*npts3_g);
+  }
 
+  // the root writes the whole grid, one z plane at a time
+  std::vector<double> mine, plane;
+  std::vector<int> counts(num_ranks), displs(num_ranks), where(npts1_g*npts2_g);
 
-    ig = 0;
-    for (int k = 1; k <= npts3; k++) {
+  for (int kg = 0; kg < npts3_g; kg++) {
+
+    mine.clear();
+    if (kg >= local_start3 and kg <= local_end3) {
+      const int k = kg - local_start3 + 1;
       for (int j = 1; j <= npts2; j++) {
         for (int i = 1; i <= npts1; i++) {
 
-          ig += 1;
-
           for (int jj = 1; jj <= 3; jj++) {
             for (int ii = 1; ii <= 3; ii++) {
               aux33(ii,jj) = ag.host(jj,ii,i,j,k);
@@ -56,17 +68,50 @@ void EVPFFT::write_texture()
 
           euler(1,ph,th,om,aux33.pointer());
 
-          fprintf(file_24.get(), 
-                  "%9.3f%9.3f%9.3f%9.3f"
-                  "%5d%5d%5d%5d%5d\n",
-                  ph,th,om,one,
-                  i,j,k,jgrain(i,j,k),jphase.host(i,j,k)
-          );
+          const double rec[n_rec] = {(double)(i+local_start1), (double)(j+local_start2), (double)(kg+1), ph, th, om,
+                                     (double)jgrain(i,j,k), (double)jphase.host(i,j,k)};
+          mine.insert(mine.end(), rec, rec + n_rec);
+
+        } // end for i
+      } // end for j
+    }
+
+    int n_mine = mine.size();
+    MPI_Gather(&n_mine, 1, MPI_INT, counts.data(), 1, MPI_INT, root, mpi_comm);
 
-        } // end for ii
-      } // end for jj
-    } // end for kk
+    int n_plane = 0;
+    for (int r = 0; r < num_ranks; r++) {
+      displs[r] = n_plane;
+      n_plane += counts[r];
+    }
+    if (my_rank == root) plane.resize(n_plane);
+    MPI_Gatherv(mine.data(), n_mine, MPI_DOUBLE, plane.data(), counts.data(), displs.data(), MPI_DOUBLE, root, mpi_comm);
 
-  } // end if(iwtex .eq. 1)
+    if (my_rank == root) {
+      for (int & w : where) w = -1;
+      for (int p = 0; p < n_plane; p += n_rec) {
+        where[(int)(plane[p]-1) + npts1_g*(int)(plane[p+1]-1)] = p;
+      }
+      for (int w : where) {
+        if (w < 0) continue;
+        const double *rec = &plane[w];
+        fprintf(file_24.get(), 
+                "%9.3f%9.3f%9.3f%9.3f"
+                "%5d%5d%5d%5d%5d\n",
+                rec[3],rec[4],rec[5],one,
+                (int)rec[0],(int)rec[1],(int)rec[2],(int)rec[6],(int)rec[7]
+        );
+      }
+    }
+
+  } // end for kg
+
+  if (my_rank == root) {
+    bool failed = ferror(file_24.get());
+    failed = (fclose(file_24.release()) != 0) or failed;
+    if (failed) {
+      throw std::runtime_error("Can not write tex.out");
+    }
+  }
 
 }
diff --git a/apps/micromechanics/LS-EVPFFT/src/write_texture.cpp b/apps/micromechanics/LS-EVPFFT/src/write_texture.cpp
index 4a74171..7e6e784 100644
--- a/apps/micromechanics/LS-EVPFFT/src/write_texture.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/write_texture.cpp
@@ -1,24 +1,31 @@
 #include "evpfft.h"
 #include "euler.h"
 #include <memory>
+#include <vector>
 #include "Profiler.h"
 
 void EVPFFT::write_texture()
 {
   Profiler profiler(__FUNCTION__);
 
-  if(my_rank == 0) {
+  // what one voxel contributes: its global indices, its angles, its grain and its phase
+  const int n_rec = 8;
 
-    ag.update_host();
+  ag.update_host();
 
-    MatrixTypeRealHost aux33(3,3);
-    MatrixTypeRealHost fbar(3,3);
-    int ig;
-    real_t ph, th, om, one;
+  MatrixTypeRealHost aux33(3,3);
+  MatrixTypeRealHost fbar(3,3);
+  real_t ph, th, om, one;
 
-    std::unique_ptr <FILE, decltype(&fclose)> file_24 (fopen("tex.out", "w"), &fclose);
+  std::unique_ptr <FILE, decltype(&fclose)> file_24 (nullptr, &fclose);
 
-    one = 1.0;
+  one = 1.0;
+
+  if (my_rank == root) {
+    file_24.reset(fopen("tex.out", "w"));
+    if (file_24 == nullptr) {
+      throw std::runtime_error("Can not open tex.out");
+    }
 
     for (int j = 1; j <= 3; j++) {
       for (int i = 1; i <= 3; i++) {
@@ -38,16 +45,21 @@ void EVPFFT::write_texture()
       }
     }
     fprintf(file_24.get(), "\n");
-    fprintf(file_24.get(), "B %10d\n", npts1*npts2*npts3);
+    fprintf(file_24.get(), "B %10d\n", npts1_g*npts2_g*npts3_g);
+  }
 
+  // the root writes the whole grid, one z plane at a time
+  std::vector<double> mine, plane;
+  std::vector<int> counts(num_ranks), displs(num_ranks), where(npts1_g*npts2_g);
 
-    ig = 0;
-    for (int k = 1; k <= npts3; k++) {
+  for (int kg = 0; kg < npts3_g; kg++) {
+
+    mine.clear();
+    if (kg >= local_start3 and kg <= local_end3) {
+      const int k = kg - local_start3 + 1;
       for (int j = 1; j <= npts2; j++) {
         for (int i = 1; i <= npts1; i++) {
 
-          ig += 1;
-
           for (int jj = 1; jj <= 3; jj++) {
             for (int ii = 1; ii <= 3; ii++) {
               aux33(ii,jj) = ag.host(jj,ii,i,j,k);
@@ -56,17 +68,50 @@ void EVPFFT::write_texture()
 
           euler(1,ph,th,om,aux33.pointer());
 
-          fprintf(file_24.get(), 
-                  "%9.3f%9.3f%9.3f%9.3f"
-                  "%5d%5d%5d%5d%5d\n",
-                  ph,th,om,one,
-                  i,j,k,jgrain(i,j,k),jphase.host(i,j,k)
-          );
+          const double rec[n_rec] = {(double)(i+local_start1), (double)(j+local_start2), (double)(kg+1), ph, th, om,
+                                     (double)jgrain(i,j,k), (double)jphase.host(i,j,k)};
+          mine.insert(mine.end(), rec, rec + n_rec);
+
+        } // end for i
+      } // end for j
+    }
+
+    int n_mine = mine.size();
+    MPI_Gather(&n_mine, 1, MPI_INT, counts.data(), 1, MPI_INT, root, mpi_comm);
 
-        } // end for ii
-      } // end for jj
-    } // end for kk
+    int n_plane = 0;
+    for (int r = 0; r < num_ranks; r++) {
+      displs[r] = n_plane;
+      n_plane += counts[r];
+    }
+    if (my_rank == root) plane.resize(n_plane);
+    MPI_Gatherv(mine.data(), n_mine, MPI_DOUBLE, plane.data(), counts.data(), displs.data(), MPI_DOUBLE, root, mpi_comm);
 
-  } // end if(iwtex .eq. 1)
+    if (my_rank == root) {
+      for (int & w : where) w = -1;
+      for (int p = 0; p < n_plane; p += n_rec) {
+        where[(int)(plane[p]-1) + npts1_g*(int)(plane[p+1]-1)] = p;
+      }
+      for (int w : where) {
+        if (w < 0) continue;
+        const double *rec = &plane[w];
+        fprintf(file_24.get(), 
+                "%9.3f%9.3f%9.3f%9.3f"
+                "%5d%5d%5d%5d%5d\n",
+                rec[3],rec[4],rec[5],one,
+                (int)rec[0],(int)rec[1],(int)rec[2],(int)rec[6],(int)rec[7]
+        );
+      }
+    }
+
+  } // end for kg
+
+  if (my_rank == root) {
+    bool failed = ferror(file_24.get());
+    failed = (fclose(file_24.release()) != 0) or failed;
+    if (failed) {
+      throw std::runtime_error("Can not write tex.out");
+    }
+  }
 
 }
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/write_texture.cpp b/apps/micromechanics/LSNP-EVPFFT/src/write_texture.cpp
index d04d4f0..538af61 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/write_texture.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/write_texture.cpp
@@ -1,24 +1,31 @@
 #include "evpfft.h"
 #include "euler.h"
 #include <memory>
+#include <vector>
 #include "Profiler.h"
 
 void EVPFFT::write_texture()
 {
   Profiler profiler(__FUNCTION__);
 
-  if(my_rank == 0) {
+  // what one voxel contributes: its global indices, its angles, its grain and its phase
+  const int n_rec = 8;
 
-    ag.update_host();
+  ag.update_host();
 
-    MatrixTypeRealHost aux33(3,3);
-    MatrixTypeRealHost fbar(3,3);
-    int ig;
-    real_t ph, th, om, one;
+  MatrixTypeRealHost aux33(3,3);
+  MatrixTypeRealHost fbar(3,3);
+  real_t ph, th, om, one;
 
-    std::unique_ptr <FILE, decltype(&fclose)> file_24 (fopen("tex.out", "w"), &fclose);
+  std::unique_ptr <FILE, decltype(&fclose)> file_24 (nullptr, &fclose);
 
-    one = 1.0;
+  one = 1.0;
+
+  if (my_rank == root) {
+    file_24.reset(fopen("tex.out", "w"));
+    if (file_24 == nullptr) {
+      throw std::runtime_error("Can not open tex.out");
+    }
 
     for (int j = 1; j <= 3; j++) {
       for (int i = 1; i <= 3; i++) {
@@ -38,17 +45,21 @@ void EVPFFT::write_texture()
       }
     }
     fprintf(file_24.get(), "\n");
-    fprintf(file_24.get(), "B %10d\n", npts1*npts2*npts3);
+    fprintf(file_24.get(), "B %10d\n", npts1_g*npts2_g*npts3_g);
+  }
 
+  // the root writes the whole grid, one z plane at a time
+  std::vector<double> mine, plane;
+  std::vector<int> counts(num_ranks), displs(num_ranks), where(npts1_g*npts2_g);
 
-    ig = 0;
-    for (int k = 1; k <= npts3; k++) {
+  for (int kg = 0; kg < npts3_g; kg++) {
+
+    mine.clear();
+    if (kg >= local_start3 and kg <= local_end3) {
+      const int k = kg - local_start3 + 1;
       for (int j = 1; j <= npts2; j++) {
         for (int i = 1; i <= npts1; i++) {
-
-          if (iframe(i,j,k) == 0) {
-
-          ig += 1;
+          if (iframe(i,j,k) != 0) continue;
 
           for (int jj = 1; jj <= 3; jj++) {
             for (int ii = 1; ii <= 3; ii++) {
@@ -58,19 +69,50 @@ void EVPFFT::write_texture()
 
           euler(1,ph,th,om,aux33.pointer());
 
-          fprintf(file_24.get(), 
-                  "%9.3f%9.3f%9.3f%9.3f"
-                  "%5d%5d%5d%5d%5d\n",
-                  ph,th,om,one,
-                  i,j,k,jgrain(i,j,k),jphase.host(i,j,k)
-          );
+          const double rec[n_rec] = {(double)(i+local_start1), (double)(j+local_start2), (double)(kg+1), ph, th, om,
+                                     (double)jgrain(i,j,k), (double)jphase.host(i,j,k)};
+          mine.insert(mine.end(), rec, rec + n_rec);
 
-          }
+        } // end for i
+      } // end for j
+    }
 
-        } // end for ii
-      } // end for jj
-    } // end for kk
+    int n_mine = mine.size();
+    MPI_Gather(&n_mine, 1, MPI_INT, counts.data(), 1, MPI_INT, root, mpi_comm);
 
-  } // end if(iwtex .eq. 1)
+    int n_plane = 0;
+    for (int r = 0; r < num_ranks; r++) {
+      displs[r] = n_plane;
+      n_plane += counts[r];
+    }
+    if (my_rank == root) plane.resize(n_plane);
+    MPI_Gatherv(mine.data(), n_mine, MPI_DOUBLE, plane.data(), counts.data(), displs.data(), MPI_DOUBLE, root, mpi_comm);
+
+    if (my_rank == root) {
+      for (int & w : where) w = -1;
+      for (int p = 0; p < n_plane; p += n_rec) {
+        where[(int)(plane[p]-1) + npts1_g*(int)(plane[p+1]-1)] = p;
+      }
+      for (int w : where) {
+        if (w < 0) continue;
+        const double *rec = &plane[w];
+        fprintf(file_24.get(), 
+                "%9.3f%9.3f%9.3f%9.3f"
+                "%5d%5d%5d%5d%5d\n",
+                rec[3],rec[4],rec[5],one,
+                (int)rec[0],(int)rec[1],(int)rec[2],(int)rec[6],(int)rec[7]
+        );
+      }
+    }
+
+  } // end for kg
+
+  if (my_rank == root) {
+    bool failed = ferror(file_24.get());
+    failed = (fclose(file_24.release()) != 0) or failed;
+    if (failed) {
+      throw std::runtime_error("Can not write tex.out");
+    }
+  }
 
 }
-- 
2.43.0


From 7b57cd64d52015a593874691b07a22b2ae8d3471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:50 +0000
Subject: [PATCH 65/81] fix: LS-EVPFFT-J2 elastic stiffness update reads the
 crystal stiffness from device memory

---
 apps/micromechanics/LS-EVPFFT-J2/src/update_el_stiff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/update_el_stiff.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/update_el_stiff.cpp
index 395c8e7..41bcd51 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/update_el_stiff.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/update_el_stiff.cpp
@@ -11,7 +11,7 @@ void EVPFFT::update_el_stiff()
 {
   Profiler profiler(__FUNCTION__);
 
-  ViewMatrixTypeReal cc_kokkos(&cc(1,1,1,1,1),3,3,3,3,NPHMX);
+  DViewFMatrixKokkos <real_t> cc_kokkos(&cc(1,1,1,1,1),3,3,3,3,NPHMX);
 
   FOR_ALL_CLASS(k, 1, npts3+1,
                 j, 1, npts2+1,
-- 
2.43.0


From 0c663e2417b33854aa2c124b881c9282f45ecc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:05 +0000
Subject: [PATCH 66/81] fix: LS-EVPFFT tracks grid nodes in global coordinates
 and writes their positions as tracked

---
 .../LS-EVPFFT-J2/src/evpfft.cpp               |  6 +-
 .../LS-EVPFFT-J2/src/update_grid_velgrad.cpp  |  6 +-
 apps/micromechanics/LS-EVPFFT/src/evpfft.cpp  |  6 +-
 .../LS-EVPFFT/src/update_grid_velgrad.cpp     |  7 +-
 .../LS-EVPFFT/src/write_micro_state.cpp       | 98 +------------------
 5 files changed, 14 insertions(+), 109 deletions(-)

diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/evpfft.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/evpfft.cpp
index a74f396..9849870 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/evpfft.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/evpfft.cpp
@@ -416,9 +416,9 @@ void EVPFFT::init_defgrad() {
                 j, 1, npts2+2,
                 i, 1, npts1+2, {
 
-    xnode(1,i,j,k) = float(i) - 0.5;
-    xnode(2,i,j,k) = float(j) - 0.5;
-    xnode(3,i,j,k) = float(k) - 0.5;
+    xnode(1,i,j,k) = float(i+local_start1) - 0.5;
+    xnode(2,i,j,k) = float(j+local_start2) - 0.5;
+    xnode(3,i,j,k) = float(k+local_start3) - 0.5;
 
   }); // end FOR_ALL_CLASS
 
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/update_grid_velgrad.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/update_grid_velgrad.cpp
index eda9622..92747ce 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/update_grid_velgrad.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/update_grid_velgrad.cpp
@@ -227,9 +227,9 @@ void EVPFFT::update_grid_velgrad()
       kv2 = k;
     }
 
-    Xnode_ref(1) = float(i) - 0.5;
-    Xnode_ref(2) = float(j) - 0.5;
-    Xnode_ref(3) = float(k) - 0.5;
+    Xnode_ref(1) = float(i+local_start1) - 0.5;
+    Xnode_ref(2) = float(j+local_start2) - 0.5;
+    Xnode_ref(3) = float(k+local_start3) - 0.5;
 
     for (int ii = 1; ii <= 3; ii++) {
       dvnode(ii) = 0.125*(work(ii,jj,iv1,jv1,kv1) + work(ii,jj,iv2,jv1,kv1) + 
diff --git a/apps/micromechanics/LS-EVPFFT/src/evpfft.cpp b/apps/micromechanics/LS-EVPFFT/src/evpfft.cpp
index efbe149..556b636 100644
--- a/apps/micromechanics/LS-EVPFFT/src/evpfft.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/evpfft.cpp
@@ -444,9 +444,9 @@ void EVPFFT::init_defgrad() {
     // create views of thread private arrays
     ViewMatrixTypeReal x(x_,3);
 
-    x(1) = (float)i - 0.5;
-    x(2) = (float)j - 0.5;
-    x(3) = (float)k - 0.5;
+    x(1) = (float)(i+local_start1) - 0.5;
+    x(2) = (float)(j+local_start2) - 0.5;
+    x(3) = (float)(k+local_start3) - 0.5;
 
     for (int ii = 1; ii <= 3; ii++) {
       xnode(ii,i,j,k) = 0.0;
diff --git a/apps/micromechanics/LS-EVPFFT/src/update_grid_velgrad.cpp b/apps/micromechanics/LS-EVPFFT/src/update_grid_velgrad.cpp
index ca212db..38a80cf 100644
--- a/apps/micromechanics/LS-EVPFFT/src/update_grid_velgrad.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/update_grid_velgrad.cpp
@@ -178,6 +178,7 @@ void EVPFFT::update_grid_velgrad()
   workG.update_host();
 
   MPI_Allreduce(MPI_IN_PLACE, workG.host_pointer(), 3*3*npts1_g*npts2_g*npts3_g, MPI_REAL_T, MPI_SUM, mpi_comm);
+  workG.update_device();
 
   FOR_ALL_CLASS(k, 1, npts3+2,
                 j, 1, npts2+2,
@@ -231,9 +232,9 @@ void EVPFFT::update_grid_velgrad()
       kv2 = k+local_start3;
     }
 
-    Xnode_ref(1) = float(i) - 0.5;
-    Xnode_ref(2) = float(j) - 0.5;
-    Xnode_ref(3) = float(k) - 0.5;
+    Xnode_ref(1) = float(i+local_start1) - 0.5;
+    Xnode_ref(2) = float(j+local_start2) - 0.5;
+    Xnode_ref(3) = float(k+local_start3) - 0.5;
 
     for (int ii = 1; ii <= 3; ii++) {
       dvnode(ii) = 0.125*(workG(ii,jj,iv1,jv1,kv1) + workG(ii,jj,iv2,jv1,kv1) + 
diff --git a/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp b/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
index 05c6fd6..69b81b7 100644
--- a/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
@@ -474,7 +474,6 @@ void EVPFFT::write_micro_state_pvtu()
 
   MPI_Barrier(MPI_COMM_WORLD);
 
-  const size_t n = 3*npts1_g*npts2_g*npts3_g; // for detFavg (1), defgradinvavgc (9), and velgradavg (9)
 
   // calculate elastic-strain
   MatrixTypeRealDual eel (3,3,npts1,npts2,npts3);
@@ -499,111 +498,16 @@ void EVPFFT::write_micro_state_pvtu()
   edotp.update_host();
 
   // Calculate point positions
-  MatrixTypeRealDual defgradavg_dual(3,3);
-  MatrixTypeRealDual delt_dual(3);
-  MatrixTypeRealDual uf(3,npts1_g,npts2_g,npts3_g);
-  MatrixTypeRealDual ufintp(3,npts1+1,npts2+1,npts3+1);
   MatrixTypeRealDual xintp(3,npts1+1,npts2+1,npts3+1);
   MatrixTypeIntHost pid(npts1+1,npts2+1,npts3+1);
 
-  for (int ii = 1; ii <= 3; ii++) {
-    for (int jj = 1; jj <= 3; jj++) {
-      defgradavg_dual.host(ii,jj) = defgradavg(ii,jj);
-    }
-    delt_dual.host(ii) = delt(3);
-  }
-  defgradavg_dual.update_device();
-  delt_dual.update_device();
-  
-  FOR_ALL_CLASS(
-          kz, 1, npts3+1,
-          ky, 1, npts2+1,
-          kx, 1, npts1+1, {
-
-        double xtmp[3];
-        xtmp[0] = double(kx);
-        xtmp[1] = double(ky);
-        xtmp[2] = double(kz);
-        for (int ii = 1; ii <= 3; ii++) {
-          real_t dum = 0.0;
-          for (int jj = 1; jj <= 3; jj++) {
-            dum += defgradavg_dual(ii,jj)*xtmp[jj-1];
-          }
-          uf(ii,kx+local_start1,ky+local_start2,kz+local_start3) = xnode(ii,kx,ky,kz) - dum;
-        }
-  }); // end FOR_ALL_CLASS
-  Kokkos::fence();
-  uf.update_host();
-
-  MPI_Allreduce(MPI_IN_PLACE, uf.host_pointer(), n, MPI_REAL_T, MPI_SUM, mpi_comm);
-
   FOR_ALL_CLASS(
           kz, 1, npts3+2,
           ky, 1, npts2+2,
           kx, 1, npts1+2, {
 
-        int kxn1;
-        int kxn2;
-        int kyn1;
-        int kyn2;
-        int kzn1;
-        int kzn2;
-        // wrapped ids of neighbring points
-        if ((kx+local_start1)==1) {
-          kxn1 = kx+local_start1;
-          kxn2 = npts1_g;
-        } else if ((kx+local_start1)==(npts1_g+1)) {
-          kxn1 = 1;
-          kxn2 = npts1_g;
-        } else {
-          kxn1 = kx+local_start1;
-          kxn2 = kx+local_start1-1;
-        }
-        if ((ky+local_start2)==1) {
-          kyn1 = ky+local_start2;
-          kyn2 = npts2_g;
-        } else if ((ky+local_start2)==(npts2_g+1)) {
-          kyn1 = 1;
-          kyn2 = npts2_g;
-        } else {
-          kyn1 = ky+local_start2;
-          kyn2 = ky+local_start2-1;
-        }
-        if ((kz+local_start3)==1) {
-          kzn1 = kz+local_start3;
-          kzn2 = npts3_g;
-        } else if ((kz+local_start3)==(npts3_g+1)) {
-          kzn1 = 1;
-          kzn2 = npts3_g;
-        } else {
-          kzn1 = kz+local_start3;
-          kzn2 = kz+local_start3-1;
-        }
-
         for (int ii = 1; ii <= 3; ii++) {
-          ufintp(ii,kx,ky,kz) = 0.125*(uf(ii,kxn1,kyn1,kzn1)+uf(ii,kxn2,kyn1,kzn1)+uf(ii,kxn1,kyn2,kzn1)+uf(ii,kxn2,kyn2,kzn1)+
-          uf(ii,kxn1,kyn1,kzn2)+uf(ii,kxn2,kyn1,kzn2)+uf(ii,kxn1,kyn2,kzn2)+uf(ii,kxn2,kyn2,kzn2) );
-        }
-  }); // end FOR_ALL_CLASS
-  Kokkos::fence();
-  ufintp.update_host();
-
-  FOR_ALL_CLASS(
-          kz, 1, npts3+2,
-          ky, 1, npts2+2,
-          kx, 1, npts1+2, {
-
-        double xtmp[3];
-        xtmp[0] = double(kx+local_start1)-0.5;
-        xtmp[1] = double(ky+local_start2)-0.5;
-        xtmp[2] = double(kz+local_start3)-0.5;
-
-        for (int ii = 1; ii <= 3; ii++) {
-          real_t dum = 0.0;
-          for (int jj = 1; jj <= 3; jj++) {
-            dum += defgradavg_dual(ii,jj)*xtmp[jj-1];
-          }
-          xintp(ii,kx,ky,kz) = (dum + ufintp(ii,kx,ky,kz))*delt_dual(ii);
+          xintp(ii,kx,ky,kz) = xnode(ii,kx,ky,kz);
         }
   }); // end FOR_ALL_CLASS
   Kokkos::fence();
-- 
2.43.0


From b8aab91bfbf87cb3a86526dd417fe2ba8458f727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:05 +0000
Subject: [PATCH 67/81] fix: EVPFFT point positions deform the physical
 coordinates also for voxels that are not cubes

---
 apps/micromechanics/EVPFFT/src/write_micro_state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/write_micro_state.cpp b/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
index 7936527..11a583c 100644
--- a/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
+++ b/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
@@ -507,9 +507,9 @@ void EVPFFT::write_micro_state_pvtu()
         for (int ii = 1; ii <= 3; ii++) {
           real_t dum = 0.0;
           for (int jj = 1; jj <= 3; jj++) {
-            dum += defgradavg(ii,jj)*xtmp[jj-1];
+            dum += defgradavg(ii,jj)*xtmp[jj-1]*delt_dual(jj);
           }
-          xintp(ii,kx,ky,kz) = dum*delt_dual(ii);
+          xintp(ii,kx,ky,kz) = dum;
         }
   }); // end FOR_ALL_CLASS
   Kokkos::fence();
-- 
2.43.0


From c1ab0c72613909251b9d65e45f47f6c9ba51d274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:48 +0000
Subject: [PATCH 68/81] fix: LS-EVPFFT-J2 leaves out a frequency only when it
 is the unpaired one of an even grid

---
 apps/micromechanics/LS-EVPFFT-J2/src/inverse_the_greens.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/inverse_the_greens.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/inverse_the_greens.cpp
index 895d08a..19c7907 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/inverse_the_greens.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/inverse_the_greens.cpp
@@ -41,9 +41,9 @@ void EVPFFT::inverse_the_greens()
       } // end for i
     } // end if (xknorm != 0.0)
 
-    if ( kxx + local_start1_cmplx == npts1_g/2+1 || 
-         kyy + local_start2_cmplx == npts2_g/2+1 || 
-         (npts3_g > 1 && kzz + local_start3_cmplx == npts3_g/2+1) ) {
+    if ( (kxx + local_start1_cmplx == npts1_g/2+1 && npts1_g % 2 == 0) || 
+         (kyy + local_start2_cmplx == npts2_g/2+1 && npts2_g % 2 == 0) || 
+         (npts3_g > 1 && kzz + local_start3_cmplx == npts3_g/2+1 && npts3_g % 2 == 0) ) {
       for (int l = 1; l <= 3; l++) {
         for (int k = 1; k <= 3; k++) {
           for (int j = 1; j <= 3; j++) {
-- 
2.43.0


From 760980f9560524a20a30f6a3d6064d1c97b152e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:48 +0000
Subject: [PATCH 69/81] fix: LS-EVPFFT and LSNP-EVPFFT copy the Green operator
 at the origin to the device

---
 apps/micromechanics/LS-EVPFFT/src/calc_Goperr0.cpp   | 2 ++
 apps/micromechanics/LSNP-EVPFFT/src/calc_Goperr0.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/apps/micromechanics/LS-EVPFFT/src/calc_Goperr0.cpp b/apps/micromechanics/LS-EVPFFT/src/calc_Goperr0.cpp
index 4d6d2fc..1f7fd15 100644
--- a/apps/micromechanics/LS-EVPFFT/src/calc_Goperr0.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/calc_Goperr0.cpp
@@ -162,5 +162,7 @@ void EVPFFT::calc_Goperr0()
       
     }
   }
+  // update device
+  Goperr0.update_device();
 
 }
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/calc_Goperr0.cpp b/apps/micromechanics/LSNP-EVPFFT/src/calc_Goperr0.cpp
index 1f4e63e..aa29948 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/calc_Goperr0.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/calc_Goperr0.cpp
@@ -267,4 +267,6 @@ void EVPFFT::calc_Goperr0()
     }
   }
   // exit(1);
+  // update device
+  Goperr0.update_device();
 }
-- 
2.43.0


From 6617e40956f69e3c61fb49ec63a8a14f5508845d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 70/81] fix: LSNP-EVPFFT moves grid nodes with the velocities
 of their global positions

---
 apps/micromechanics/LSNP-EVPFFT/src/update_grid.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/apps/micromechanics/LSNP-EVPFFT/src/update_grid.cpp b/apps/micromechanics/LSNP-EVPFFT/src/update_grid.cpp
index 3ad0f0c..bcc71f3 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/update_grid.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/update_grid.cpp
@@ -33,6 +33,7 @@ void EVPFFT::update_grid()
 
   workG.update_host();
   MPI_Allreduce(MPI_IN_PLACE, workG.host_pointer(), 3*npts1_g*npts2_g*npts3_g, MPI_REAL_T, MPI_SUM, mpi_comm);
+  workG.update_device();
 
   FOR_ALL_CLASS(k, 1, npts3+2,
                 j, 1, npts2+2,
@@ -100,17 +101,17 @@ void EVPFFT::update_grid()
       if ((i+local_start1) == npts1_g + 1) {
         ind = 1;
       } else {
-        ind = i;
+        ind = i+local_start1;
       }
       if ((j+local_start2) == npts2_g + 1) {
         jnd = 1;
       } else {
-        jnd = j;
+        jnd = j+local_start2;
       }
       if ((k+local_start3) == npts3_g + 1) {
         knd = 1;
       } else {
-        knd = k;
+        knd = k+local_start3;
       }
 
       for (int ii = 1; ii <= 3; ii++) {
-- 
2.43.0


From 94d0b00e375de2c07d9ff43c4920071595178def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 71/81] fix: LSNP-EVPFFT boundary faces and weights of grids
 that are not cubes

---
 .../LSNP-EVPFFT/src/allocate_memory.cpp              |  2 +-
 .../LSNP-EVPFFT/src/calc_vel_bc_error.cpp            | 12 ++++++------
 .../LSNP-EVPFFT/src/calc_vel_boundary_lin_el.cpp     | 12 ++++++------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/apps/micromechanics/LSNP-EVPFFT/src/allocate_memory.cpp b/apps/micromechanics/LSNP-EVPFFT/src/allocate_memory.cpp
index fd31bf6..133b382 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/allocate_memory.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/allocate_memory.cpp
@@ -14,7 +14,7 @@ void EVPFFT::allocate_memory()
   local_end1 = fft->localRealBoxes[my_rank].high[0];
   local_end2 = fft->localRealBoxes[my_rank].high[1];
   local_end3 = fft->localRealBoxes[my_rank].high[2];
-  wgt = real_t(1.0) / real_t((npts1_g-2*dnpts1_g)*(npts2_g-2*dnpts2_g)*(npts2_g-2*dnpts2_g));
+  wgt = real_t(1.0) / real_t((npts1_g-2*dnpts1_g)*(npts2_g-2*dnpts2_g)*(npts3_g-2*dnpts3_g));
   wgttot = real_t(1.0) / real_t(npts1_g*npts2_g*npts3_g);
 
   npts1_g_cmplx = fft->globalComplexBoxSize[0];
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/calc_vel_bc_error.cpp b/apps/micromechanics/LSNP-EVPFFT/src/calc_vel_bc_error.cpp
index 410dc59..8783be8 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/calc_vel_bc_error.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/calc_vel_bc_error.cpp
@@ -37,9 +37,9 @@ void EVPFFT::calc_vel_bc_error()
     j_gs = j_g - dnpts2_g;
     k_gs = k_g - dnpts3_g;
 
-    if ( (i_gs == 1 || i_gs == npts1_g - 2*dnpts1_g + 1) && (j_gs >= 1 && j_gs <= npts1_g-2*dnpts1_g+1 && k_gs >= 1 && k_gs <= npts3_g-2*dnpts3_g+1) ||
-         (j_gs == 1 || j_gs == npts2_g - 2*dnpts2_g + 1) && (i_gs >= 1 && i_gs <= npts2_g-2*dnpts2_g+1 && k_gs >= 1 && k_gs <= npts3_g-2*dnpts3_g+1) ||
-         (k_gs == 1 || k_gs == npts2_g - 2*dnpts2_g + 1) && (i_gs >= 1 && i_gs <= npts2_g-2*dnpts2_g+1 && j_gs >= 1 && j_gs <= npts2_g-2*dnpts2_g+1)){
+    if ( (i_gs == 1 || i_gs == npts1_g - 2*dnpts1_g + 1) && (j_gs >= 1 && j_gs <= npts2_g-2*dnpts2_g+1 && k_gs >= 1 && k_gs <= npts3_g-2*dnpts3_g+1) ||
+         (j_gs == 1 || j_gs == npts2_g - 2*dnpts2_g + 1) && (i_gs >= 1 && i_gs <= npts1_g-2*dnpts1_g+1 && k_gs >= 1 && k_gs <= npts3_g-2*dnpts3_g+1) ||
+         (k_gs == 1 || k_gs == npts3_g - 2*dnpts3_g + 1) && (i_gs >= 1 && i_gs <= npts1_g-2*dnpts1_g+1 && j_gs >= 1 && j_gs <= npts2_g-2*dnpts2_g+1)){
 
       // averages packed in array
       int ic;
@@ -98,9 +98,9 @@ void EVPFFT::calc_vel_bc_error()
     j_gs = j_g - dnpts2_g;
     k_gs = k_g - dnpts3_g;
 
-    if ( (i_gs == 1 || i_gs == npts1_g - 2*dnpts1_g + 1) && (j_gs >= 1 && j_gs <= npts1_g-2*dnpts1_g+1 && k_gs >= 1 && k_gs <= npts3_g-2*dnpts3_g+1) ||
-         (j_gs == 1 || j_gs == npts2_g - 2*dnpts2_g + 1) && (i_gs >= 1 && i_gs <= npts2_g-2*dnpts2_g+1 && k_gs >= 1 && k_gs <= npts3_g-2*dnpts3_g+1) ||
-         (k_gs == 1 || k_gs == npts2_g - 2*dnpts2_g + 1) && (i_gs >= 1 && i_gs <= npts2_g-2*dnpts2_g+1 && j_gs >= 1 && j_gs <= npts2_g-2*dnpts2_g+1)){
+    if ( (i_gs == 1 || i_gs == npts1_g - 2*dnpts1_g + 1) && (j_gs >= 1 && j_gs <= npts2_g-2*dnpts2_g+1 && k_gs >= 1 && k_gs <= npts3_g-2*dnpts3_g+1) ||
+         (j_gs == 1 || j_gs == npts2_g - 2*dnpts2_g + 1) && (i_gs >= 1 && i_gs <= npts1_g-2*dnpts1_g+1 && k_gs >= 1 && k_gs <= npts3_g-2*dnpts3_g+1) ||
+         (k_gs == 1 || k_gs == npts3_g - 2*dnpts3_g + 1) && (i_gs >= 1 && i_gs <= npts1_g-2*dnpts1_g+1 && j_gs >= 1 && j_gs <= npts2_g-2*dnpts2_g+1)){
 
       real_t veln;
       real_t dveln;
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/calc_vel_boundary_lin_el.cpp b/apps/micromechanics/LSNP-EVPFFT/src/calc_vel_boundary_lin_el.cpp
index 5d4025a..9b9a09f 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/calc_vel_boundary_lin_el.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/calc_vel_boundary_lin_el.cpp
@@ -27,9 +27,9 @@ void EVPFFT::calc_vel_boundary_lin_el()
     j_g = j + local_start2 - dnpts2_g;
     k_g = k + local_start3 - dnpts3_g;
 
-    if ( (i_g == 1 || i_g == npts1_g - 2*dnpts1_g + 1) && (j_g >= 1 && j_g <= npts1_g-2*dnpts1_g+1 && k_g >= 1 && k_g <= npts3_g-2*dnpts3_g+1) ||
-         (j_g == 1 || j_g == npts2_g - 2*dnpts2_g + 1) && (i_g >= 1 && i_g <= npts2_g-2*dnpts2_g+1 && k_g >= 1 && k_g <= npts3_g-2*dnpts3_g+1) ||
-         (k_g == 1 || k_g == npts2_g - 2*dnpts2_g + 1) && (i_g >= 1 && i_g <= npts2_g-2*dnpts2_g+1 && j_g >= 1 && j_g <= npts2_g-2*dnpts2_g+1)){
+    if ( (i_g == 1 || i_g == npts1_g - 2*dnpts1_g + 1) && (j_g >= 1 && j_g <= npts2_g-2*dnpts2_g+1 && k_g >= 1 && k_g <= npts3_g-2*dnpts3_g+1) ||
+         (j_g == 1 || j_g == npts2_g - 2*dnpts2_g + 1) && (i_g >= 1 && i_g <= npts1_g-2*dnpts1_g+1 && k_g >= 1 && k_g <= npts3_g-2*dnpts3_g+1) ||
+         (k_g == 1 || k_g == npts3_g - 2*dnpts3_g + 1) && (i_g >= 1 && i_g <= npts1_g-2*dnpts1_g+1 && j_g >= 1 && j_g <= npts2_g-2*dnpts2_g+1)){
 
     // if ((i_g == 1 || j_g == 1 || k_g == 1 || 
     //     i_g == npts1_g - 2*dnpts1_g + 1 || j_g == npts2_g - 2*dnpts2_g + 1 || 
@@ -106,9 +106,9 @@ void EVPFFT::calc_vel_boundary_lin_el()
     j_g = j + local_start2 - dnpts2_g;
     k_g = k + local_start3 - dnpts3_g;
 
-    if ( (i_g == 1 || i_g == npts1_g - 2*dnpts1_g + 1) && (j_g >= 1 && j_g <= npts1_g-2*dnpts1_g+1 && k_g >= 1 && k_g <= npts3_g-2*dnpts3_g+1) ||
-         (j_g == 1 || j_g == npts2_g - 2*dnpts2_g + 1) && (i_g >= 1 && i_g <= npts2_g-2*dnpts2_g+1 && k_g >= 1 && k_g <= npts3_g-2*dnpts3_g+1) ||
-         (k_g == 1 || k_g == npts2_g - 2*dnpts2_g + 1) && (i_g >= 1 && i_g <= npts2_g-2*dnpts2_g+1 && j_g >= 1 && j_g <= npts2_g-2*dnpts2_g+1)){
+    if ( (i_g == 1 || i_g == npts1_g - 2*dnpts1_g + 1) && (j_g >= 1 && j_g <= npts2_g-2*dnpts2_g+1 && k_g >= 1 && k_g <= npts3_g-2*dnpts3_g+1) ||
+         (j_g == 1 || j_g == npts2_g - 2*dnpts2_g + 1) && (i_g >= 1 && i_g <= npts1_g-2*dnpts1_g+1 && k_g >= 1 && k_g <= npts3_g-2*dnpts3_g+1) ||
+         (k_g == 1 || k_g == npts3_g - 2*dnpts3_g + 1) && (i_g >= 1 && i_g <= npts1_g-2*dnpts1_g+1 && j_g >= 1 && j_g <= npts2_g-2*dnpts2_g+1)){
 
     // if ((i_g == 1 || j_g == 1 || k_g == 1 || 
     //     i_g == npts1_g - 2*dnpts1_g + 1 || j_g == npts2_g - 2*dnpts2_g + 1 || 
-- 
2.43.0


From a6c49a3b806762754723253e44837e358e169483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 72/81] fix: LSNP-EVPFFT keeps host and device copies of the
 frame, corner and reference data in step

---
 .../LSNP-EVPFFT/src/calc_IC0a_inv.cpp         | 10 ++--
 .../LSNP-EVPFFT/src/calc_velvert.cpp          |  5 +-
 .../LSNP-EVPFFT/src/data_grain.cpp            |  8 +--
 .../micromechanics/LSNP-EVPFFT/src/evpfft.cpp | 49 ++++++++++---------
 .../LSNP-EVPFFT/src/update_xvert.cpp          |  2 +-
 .../LSNP-EVPFFT/src/write_texture.cpp         |  2 +-
 6 files changed, 39 insertions(+), 37 deletions(-)

diff --git a/apps/micromechanics/LSNP-EVPFFT/src/calc_IC0a_inv.cpp b/apps/micromechanics/LSNP-EVPFFT/src/calc_IC0a_inv.cpp
index 0c79a1a..265ea69 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/calc_IC0a_inv.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/calc_IC0a_inv.cpp
@@ -24,7 +24,7 @@ void EVPFFT::calc_IC0a_inv()
     for (int jj = 1; jj <= 6; jj++) {
       IC0a66_inv(ii,jj) = 0.0;
       for (int kk = 1; kk <= 6; kk++) {
-        IC0a66_inv(ii,jj) += c066(ii,kk)*s66(kk,jj);
+        IC0a66_inv(ii,jj) += c066.host(ii,kk)*s66(kk,jj);
       }
     }
   }
@@ -36,9 +36,9 @@ void EVPFFT::calc_IC0a_inv()
   invert_matrix <6> (IC0a66_inv.pointer());
   cb.chg_basis_3(IC0a66_inv.pointer(), IC0a_inv.host_pointer(), 3, 6, cb.B_basis_host_pointer());
 
-  real_t s_frame_[3*3*3*3];
-  ViewMatrixTypeReal s_frame(s_frame_,3,3,3,3);
-  cb.chg_basis_3(s66.pointer(), s_frame.pointer(), 3, 6, cb.B_basis_host_pointer());
+  MatrixTypeRealDual s_frame(3,3,3,3);
+  cb.chg_basis_3(s66.pointer(), s_frame.host_pointer(), 3, 6, cb.B_basis_host_pointer());
+  s_frame.update_device();
 
   FOR_ALL_CLASS(k, 1, npts3+1,
                 j, 1, npts2+1,
@@ -59,8 +59,8 @@ void EVPFFT::calc_IC0a_inv()
       }
     }
   });
+  Kokkos::fence();
 
   IC0a_inv.update_device();
-  Cinv_sgPK1old.update_device();
 
 }
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/calc_velvert.cpp b/apps/micromechanics/LSNP-EVPFFT/src/calc_velvert.cpp
index 6b13502..bd24938 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/calc_velvert.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/calc_velvert.cpp
@@ -8,11 +8,12 @@ void EVPFFT::calc_velvert()
 
   for (int inode = 1; inode <= 8; inode++) {
     for (int ii = 1; ii <= 3; ii++) {
-      velvert(ii,inode) = 0.0;
+      velvert.host(ii,inode) = 0.0;
       for (int jj = 1; jj <= 3; jj++) {
-        velvert(ii,inode) += udot(ii,jj)*xvert_current(jj,inode);
+        velvert.host(ii,inode) += udot.host(ii,jj)*xvert_current.host(jj,inode);
       }
     }
   }
+  velvert.update_device();
 
 }
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp b/apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp
index 164f82d..3a57534 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp
@@ -46,7 +46,7 @@ void EVPFFT::data_grain(const std::string & filetext)
     for (int jj = 1; jj <= npts2; jj++) {
       for (int ii = 1; ii <= npts1; ii++) {
                      
-      if (iframe(ii,jj,kk) == 0) {
+      if (iframe.host(ii,jj,kk) == 0) {
 
       int jph;
       real_t ph, th, om;
@@ -150,7 +150,7 @@ void EVPFFT::data_grain(const std::string & filetext)
 
   // count of phase 1 voxels over all ranks
   MPI_Allreduce(MPI_IN_PLACE, &nph1, 1, MPI_INT, MPI_SUM, mpi_comm);
-  wph1 = (1.0*nph1)/(npts1_g*npts2_g*npts3_g);
+  wph1 = (1.0*nph1)/((npts1_g-2*dnpts1_g)*(npts2_g-2*dnpts2_g)*(npts3_g-2*dnpts3_g));
 
   MatrixTypeRealHost s066(6,6);
   for (int i = 1; i <= 6; i++) {
@@ -191,13 +191,13 @@ void EVPFFT::read_classic_los_alamos_texture_file(const std::string & filetext)
   for (int kk = 1; kk <= npts3; kk++) {
     for (int jj = 1; jj <= npts2; jj++) {
       for (int ii = 1; ii <= npts1; ii++) {
-        iframe(ii,jj,kk) = 1;
+        iframe.host(ii,jj,kk) = 1;
       }
     }
   }
 
   for (int kk = 0 + dnpts3_g; kk < npts3_g - dnpts3_g; kk++) {
-    for (int jj = 0 + dnpts2_g; jj < npts2_g - dnpts3_g; jj++) {
+    for (int jj = 0 + dnpts2_g; jj < npts2_g - dnpts2_g; jj++) {
       for (int ii = 0 + dnpts1_g; ii < npts1_g - dnpts1_g; ii++) {
       
         ur2 >> ph >> th >> om >> iiii >> jjjj >> kkkk >> jgr >> jph; CLEAR_LINE(ur2);
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/evpfft.cpp b/apps/micromechanics/LSNP-EVPFFT/src/evpfft.cpp
index 4d47240..f094365 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/evpfft.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/evpfft.cpp
@@ -517,38 +517,39 @@ void EVPFFT::init_defgrad() {
 
 void EVPFFT::init_Xvert() {
 
-  Xvert(1,1) = 0.5; // 1
-  Xvert(2,1) = 0.5; // 1
-  Xvert(3,1) = 0.5; // 1
+  Xvert.host(1,1) = 0.5; // 1
+  Xvert.host(2,1) = 0.5; // 1
+  Xvert.host(3,1) = 0.5; // 1
 
-  Xvert(1,2) = 1.0*(npts1_g - dnpts1_g*2) + 0.5; // 2
-  Xvert(2,2) = 0.5; // 2
-  Xvert(3,2) = 0.5; // 2
+  Xvert.host(1,2) = 1.0*(npts1_g - dnpts1_g*2) + 0.5; // 2
+  Xvert.host(2,2) = 0.5; // 2
+  Xvert.host(3,2) = 0.5; // 2
 
-  Xvert(1,3) = 1.0*(npts1_g - dnpts1_g*2) + 0.5; // 3
-  Xvert(2,3) = 1.0*(npts2_g - dnpts2_g*2) + 0.5; // 3
-  Xvert(3,3) = 0.5; // 3
+  Xvert.host(1,3) = 1.0*(npts1_g - dnpts1_g*2) + 0.5; // 3
+  Xvert.host(2,3) = 1.0*(npts2_g - dnpts2_g*2) + 0.5; // 3
+  Xvert.host(3,3) = 0.5; // 3
 
-  Xvert(1,4) = 0.5; // 4
-  Xvert(2,4) = 1.0*(npts2_g - dnpts2_g*2) + 0.5; // 4
-  Xvert(3,4) = 0.5; // 4
+  Xvert.host(1,4) = 0.5; // 4
+  Xvert.host(2,4) = 1.0*(npts2_g - dnpts2_g*2) + 0.5; // 4
+  Xvert.host(3,4) = 0.5; // 4
 
-  Xvert(1,5) = 0.5; // 5
-  Xvert(2,5) = 0.5; // 5
-  Xvert(3,5) = 1.0*(npts3_g - dnpts3_g*2) + 0.5; // 5
+  Xvert.host(1,5) = 0.5; // 5
+  Xvert.host(2,5) = 0.5; // 5
+  Xvert.host(3,5) = 1.0*(npts3_g - dnpts3_g*2) + 0.5; // 5
 
-  Xvert(1,6) = 1.0*(npts1_g - dnpts1_g*2) + 0.5; // 6
-  Xvert(2,6) = 0.5; // 6
-  Xvert(3,6) = 1.0*(npts3_g - dnpts3_g*2) + 0.5; // 6
+  Xvert.host(1,6) = 1.0*(npts1_g - dnpts1_g*2) + 0.5; // 6
+  Xvert.host(2,6) = 0.5; // 6
+  Xvert.host(3,6) = 1.0*(npts3_g - dnpts3_g*2) + 0.5; // 6
 
-  Xvert(1,7) = 1.0*(npts1_g - dnpts1_g*2) + 0.5; // 7
-  Xvert(2,7) = 1.0*(npts2_g - dnpts2_g*2) + 0.5; // 7
-  Xvert(3,7) = 1.0*(npts3_g - dnpts3_g*2) + 0.5; // 7
+  Xvert.host(1,7) = 1.0*(npts1_g - dnpts1_g*2) + 0.5; // 7
+  Xvert.host(2,7) = 1.0*(npts2_g - dnpts2_g*2) + 0.5; // 7
+  Xvert.host(3,7) = 1.0*(npts3_g - dnpts3_g*2) + 0.5; // 7
 
-  Xvert(1,8) = 0.5; // 8
-  Xvert(2,8) = 1.0*(npts2_g - dnpts2_g*2) + 0.5; // 8
-  Xvert(3,8) = 1.0*(npts3_g - dnpts3_g*2) + 0.5; // 8
+  Xvert.host(1,8) = 0.5; // 8
+  Xvert.host(2,8) = 1.0*(npts2_g - dnpts2_g*2) + 0.5; // 8
+  Xvert.host(3,8) = 1.0*(npts3_g - dnpts3_g*2) + 0.5; // 8
 
+  Xvert.update_device();
   xvert_current = Xvert;
 
 }
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/update_xvert.cpp b/apps/micromechanics/LSNP-EVPFFT/src/update_xvert.cpp
index 0e64144..2d71491 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/update_xvert.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/update_xvert.cpp
@@ -8,7 +8,7 @@ void EVPFFT::update_xvert()
 
   for (int inode = 1; inode <= 8; inode++) {
     for (int ii = 1; ii <= 3; ii++) {
-      xvert_current(ii,inode) += velvert(ii,inode)*tdot;
+      xvert_current.host(ii,inode) += velvert.host(ii,inode)*tdot;
     }
   }
 
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/write_texture.cpp b/apps/micromechanics/LSNP-EVPFFT/src/write_texture.cpp
index 538af61..66ba986 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/write_texture.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/write_texture.cpp
@@ -59,7 +59,7 @@ void EVPFFT::write_texture()
       const int k = kg - local_start3 + 1;
       for (int j = 1; j <= npts2; j++) {
         for (int i = 1; i <= npts1; i++) {
-          if (iframe(i,j,k) != 0) continue;
+          if (iframe.host(i,j,k) != 0) continue;
 
           for (int jj = 1; jj <= 3; jj++) {
             for (int ii = 1; ii <= 3; ii++) {
-- 
2.43.0


From d54887c258f900f2982b99a05b63a0d95aa30f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 73/81] fix: the EVPFFT programs report results that could not
 be stored

---
 apps/micromechanics/EVPFFT/src/evpfft.cpp     |  6 +++
 .../EVPFFT/src/hdf5_io_functions.cpp          |  8 ++--
 .../EVPFFT/src/hdf5_io_functions.h            | 21 ++++++++--
 .../EVPFFT/src/micro_output_writer.h          | 12 +++++-
 .../EVPFFT/src/output_file_manager.cpp        | 39 +++++++++++++++++--
 .../EVPFFT/src/output_file_manager.h          |  1 +
 apps/micromechanics/EVPFFT/src/utilities.cpp  |  2 +-
 .../EVPFFT/src/write_micro_state.cpp          |  6 +++
 .../LS-EVPFFT-J2/src/evpfft.cpp               |  6 +++
 .../LS-EVPFFT-J2/src/hdf5_io_functions.cpp    |  8 ++--
 .../LS-EVPFFT-J2/src/hdf5_io_functions.h      | 21 ++++++++--
 .../LS-EVPFFT-J2/src/micro_output_writer.h    | 12 +++++-
 .../LS-EVPFFT-J2/src/output_file_manager.cpp  | 39 +++++++++++++++++--
 .../LS-EVPFFT-J2/src/output_file_manager.h    |  1 +
 .../LS-EVPFFT-J2/src/utilities.cpp            |  2 +-
 apps/micromechanics/LS-EVPFFT/src/evpfft.cpp  |  6 +++
 .../LS-EVPFFT/src/hdf5_io_functions.cpp       |  8 ++--
 .../LS-EVPFFT/src/hdf5_io_functions.h         | 21 ++++++++--
 .../LS-EVPFFT/src/micro_output_writer.h       | 12 +++++-
 .../LS-EVPFFT/src/output_file_manager.cpp     | 39 +++++++++++++++++--
 .../LS-EVPFFT/src/output_file_manager.h       |  1 +
 .../LS-EVPFFT/src/utilities.cpp               |  2 +-
 .../LS-EVPFFT/src/write_micro_state.cpp       |  6 +++
 .../micromechanics/LSNP-EVPFFT/src/evpfft.cpp |  6 +++
 .../LSNP-EVPFFT/src/hdf5_io_functions.cpp     |  8 ++--
 .../LSNP-EVPFFT/src/hdf5_io_functions.h       | 21 ++++++++--
 .../LSNP-EVPFFT/src/micro_output_writer.h     | 12 +++++-
 .../LSNP-EVPFFT/src/output_file_manager.cpp   | 39 +++++++++++++++++--
 .../LSNP-EVPFFT/src/output_file_manager.h     |  1 +
 .../LSNP-EVPFFT/src/utilities.cpp             |  2 +-
 .../LSNP-EVPFFT/src/write_micro_state.cpp     |  6 +++
 31 files changed, 318 insertions(+), 56 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/evpfft.cpp b/apps/micromechanics/EVPFFT/src/evpfft.cpp
index 7e3c1ba..ab399a2 100644
--- a/apps/micromechanics/EVPFFT/src/evpfft.cpp
+++ b/apps/micromechanics/EVPFFT/src/evpfft.cpp
@@ -440,6 +440,12 @@ void EVPFFT::solve() {
   for (imicro = 1; imicro <= nsteps; imicro++) {
     evolve();
   }
+
+#ifndef ABSOLUTE_NO_OUTPUT
+  // make sure that everything is stored
+  ofile_mgr.close_files();
+  micro_writer->close();
+#endif
   return;
 }
 
diff --git a/apps/micromechanics/EVPFFT/src/hdf5_io_functions.cpp b/apps/micromechanics/EVPFFT/src/hdf5_io_functions.cpp
index dac843b..8c15530 100644
--- a/apps/micromechanics/EVPFFT/src/hdf5_io_functions.cpp
+++ b/apps/micromechanics/EVPFFT/src/hdf5_io_functions.cpp
@@ -90,7 +90,7 @@ hid_t create_hdf5_file(const char *filename, MPI_Comm mpi_hdf5_comm)
     H5Pclose(file_access_plist);
     MPI_Info_free(&mpi_info);
 
-    return file_identifier;
+    return check_hdf5_status(file_identifier, "H5Fcreate", filename);
 }
 
 hid_t create_hdf5_dataset(const char *dataset_name, hid_t hdf5_datatype, 
@@ -109,7 +109,7 @@ hid_t create_hdf5_dataset(const char *dataset_name, hid_t hdf5_datatype,
       dataset_creation_plist,   // Arg 6: dataset creation property list
       dataset_access_plist);    // Arg 7: dataset access property list
 
-    return dataset;
+    return check_hdf5_status(dataset, "H5Dcreate2", dataset_name);
 }
 
 hid_t open_hdf5_file(const char *filename, MPI_Comm mpi_hdf5_comm)
@@ -132,7 +132,7 @@ hid_t open_hdf5_file(const char *filename, MPI_Comm mpi_hdf5_comm)
     // release the file access template
     H5Pclose(file_access_plist);
 
-    return file_identifier;
+    return check_hdf5_status(file_identifier, "H5Fopen", filename);
 }
 
 hid_t open_hdf5_dataset(const char *dataset_name, hid_t file_identifier)
@@ -145,5 +145,5 @@ hid_t open_hdf5_dataset(const char *dataset_name, hid_t file_identifier)
       dataset_name,           // Arg 2: dataset name to match for read
       dataset_access_plist);  // Arg 3: dataset access property list
 
-    return dataset;
+    return check_hdf5_status(dataset, "H5Dopen2", dataset_name);
 }
diff --git a/apps/micromechanics/EVPFFT/src/hdf5_io_functions.h b/apps/micromechanics/EVPFFT/src/hdf5_io_functions.h
index ba646cb..3f9789d 100644
--- a/apps/micromechanics/EVPFFT/src/hdf5_io_functions.h
+++ b/apps/micromechanics/EVPFFT/src/hdf5_io_functions.h
@@ -3,6 +3,18 @@
 #include "hdf5.h"
 #include "mpi.h"
 #include <iostream>
+#include <stdexcept>
+#include <string>
+
+// throws if an hdf5 function has failed, otherwise returns its result
+template <typename R>
+R check_hdf5_status(R result, const char *function_name, const char *object_name)
+{
+    if (result < 0) {
+        throw std::runtime_error(std::string(function_name) + " failed for " + object_name);
+    }
+    return result;
+}
 
 hid_t create_hdf5_filespace(int num_dims_, 
     const int *global_array_dims_, const int *local_array_dims_,
@@ -69,10 +81,10 @@ void write_hdf5_dataset(const char *dataset_name, R *data_ptr,
     H5Pset_dxpl_mpio(xfer_plist, H5FD_MPIO_COLLECTIVE);
 
     // write the data to disk using both the memory space and the data space.
-    H5Dwrite(dataset, hdf5_datatype, memspace, filespace, xfer_plist,
-             data_ptr);
+    check_hdf5_status(H5Dwrite(dataset, hdf5_datatype, memspace, filespace, xfer_plist,
+                      data_ptr), "H5Dwrite", dataset_name);
 
-    H5Dclose(dataset);
+    check_hdf5_status(H5Dclose(dataset), "H5Dclose", dataset_name);
 
     H5Pclose(xfer_plist);
 }
@@ -90,7 +102,8 @@ void read_hdf5_dataset(const char *dataset_name, R *data_ptr,
     H5Pset_dxpl_mpio(xfer_plist, H5FD_MPIO_COLLECTIVE);
 
     // read the data from disk using both the memory space and the data space.
-    H5Dread(dataset, hdf5_datatype, memspace, filespace, H5P_DEFAULT, data_ptr);
+    check_hdf5_status(H5Dread(dataset, hdf5_datatype, memspace, filespace, H5P_DEFAULT, data_ptr),
+                      "H5Dread", dataset_name);
 
     H5Dclose(dataset);
 
diff --git a/apps/micromechanics/EVPFFT/src/micro_output_writer.h b/apps/micromechanics/EVPFFT/src/micro_output_writer.h
index ec24f58..aaba6ac 100644
--- a/apps/micromechanics/EVPFFT/src/micro_output_writer.h
+++ b/apps/micromechanics/EVPFFT/src/micro_output_writer.h
@@ -11,6 +11,7 @@ struct MicroOutputWriter
         const int *stride=nullptr);
     MicroOutputWriter(const MicroOutputWriter &) = delete;
     ~MicroOutputWriter();
+    void close(); // throws if the file could not be stored
 
     template <typename T>
     void reverse_array(T *arr, int start, int end);
@@ -98,11 +99,20 @@ MicroOutputWriter<ARRAY_LAYOUT>::~MicroOutputWriter()
     H5Sclose(memspace_);
     memspace_ = H5S_NULL;
 
-    H5Fclose(file_id_);
+    if (file_id_ >= 0) H5Fclose(file_id_);
 #endif
 };
 
 
+template <int ARRAY_LAYOUT>
+void MicroOutputWriter<ARRAY_LAYOUT>::close()
+{
+    hid_t file_id = file_id_;
+    file_id_ = -1;
+    check_hdf5_status(H5Fclose(file_id), "H5Fclose", filename_);
+}
+
+
 template <int ARRAY_LAYOUT>
 template<typename T>
 void MicroOutputWriter<ARRAY_LAYOUT>::reverse_array(T *arr, int start, int end)
diff --git a/apps/micromechanics/EVPFFT/src/output_file_manager.cpp b/apps/micromechanics/EVPFFT/src/output_file_manager.cpp
index 64f7e13..f56c8b3 100644
--- a/apps/micromechanics/EVPFFT/src/output_file_manager.cpp
+++ b/apps/micromechanics/EVPFFT/src/output_file_manager.cpp
@@ -1,6 +1,29 @@
 #include "output_file_manager.h"
 #include "utilities.h"
 #include "definitions.h"
+#include <stdexcept>
+
+namespace {
+
+struct FileCloser
+{
+  bool closed = false;
+  void operator()(FILE *file) { if (file != nullptr and not closed) fclose(file); }
+};
+
+void close_file(std::shared_ptr <FILE> & file, const char *filename)
+{
+  if (file == nullptr) return;
+  bool failed = ferror(file.get());
+  std::get_deleter <FileCloser> (file)->closed = true;
+  failed = (fclose(file.get()) != 0) or failed;
+  file.reset();
+  if (failed) {
+    throw std::runtime_error(std::string("Can't write ") + filename);
+  }
+}
+
+} // namespace
 
 OutputFileManager::OutputFileManager()
   : vm_file (nullptr)
@@ -15,16 +38,16 @@ OutputFileManager::OutputFileManager()
 void OutputFileManager::open_files()
 {
 #ifndef ABSOLUTE_NO_OUTPUT
-    vm_file = std::shared_ptr <FILE> (fopen("vm.out", "w"), &fclose);
+    vm_file = std::shared_ptr <FILE> (fopen("vm.out", "w"), FileCloser());
     check_that_file_is_open(vm_file.get(), "vm.out");
 
-    str_str_file = std::shared_ptr <FILE> (fopen("str_str.out", "w"), &fclose);
+    str_str_file = std::shared_ptr <FILE> (fopen("str_str.out", "w"), FileCloser());
     check_that_file_is_open(str_str_file.get(), "str_str.out");
 
-    err_file = std::shared_ptr <FILE> (fopen("err.out", "w"), &fclose);
+    err_file = std::shared_ptr <FILE> (fopen("err.out", "w"), FileCloser());
     check_that_file_is_open(err_file.get(), "err.out");
 
-    conv_file = std::shared_ptr <FILE> (fopen("conv.out", "w"), &fclose);
+    conv_file = std::shared_ptr <FILE> (fopen("conv.out", "w"), FileCloser());
     check_that_file_is_open(conv_file.get(), "conv.out");
 
 
@@ -42,3 +65,11 @@ void OutputFileManager::open_files()
     fprintf(err_file.get(), "STEP,IT,ERRE,ERRS,SVM,AVG_NR_IT\n");
 #endif
 }
+
+void OutputFileManager::close_files()
+{
+  close_file(vm_file, "vm.out");
+  close_file(str_str_file, "str_str.out");
+  close_file(err_file, "err.out");
+  close_file(conv_file, "conv.out");
+}
diff --git a/apps/micromechanics/EVPFFT/src/output_file_manager.h b/apps/micromechanics/EVPFFT/src/output_file_manager.h
index 27e09d6..7337fab 100644
--- a/apps/micromechanics/EVPFFT/src/output_file_manager.h
+++ b/apps/micromechanics/EVPFFT/src/output_file_manager.h
@@ -16,4 +16,5 @@ struct OutputFileManager
 
   OutputFileManager();
   void open_files();
+  void close_files(); // throws if anything that was written is not stored
 };
diff --git a/apps/micromechanics/EVPFFT/src/utilities.cpp b/apps/micromechanics/EVPFFT/src/utilities.cpp
index 209cd3b..d59b265 100644
--- a/apps/micromechanics/EVPFFT/src/utilities.cpp
+++ b/apps/micromechanics/EVPFFT/src/utilities.cpp
@@ -27,7 +27,7 @@ void check_that_file_is_open(const std::ifstream & filestream, const char* filen
 
 void check_that_file_is_open(FILE *file_ptr, const char* filename)
 {
-  if (filename == NULL)
+  if (file_ptr == NULL)
   {
     throw std::runtime_error(std::string("Can't open ") + filename);
   }
diff --git a/apps/micromechanics/EVPFFT/src/write_micro_state.cpp b/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
index 11a583c..6a7e002 100644
--- a/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
+++ b/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
@@ -701,6 +701,9 @@ void EVPFFT::write_micro_state_pvtu()
     pout.write(tmp_str.c_str(), tmp_str.length());
 
     pout.close();
+    if (!pout) {
+      throw std::runtime_error(std::string("Can't write ") + pfilename);
+    }
   }
 
   //  ---------------------------------------------------------------------------
@@ -1200,5 +1203,8 @@ void EVPFFT::write_micro_state_pvtu()
   out.write(tmp_str.c_str(), tmp_str.length());  
 
   out.close();
+  if (!out) {
+    throw std::runtime_error(std::string("Can't write ") + filename);
+  }
 
 }
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/evpfft.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/evpfft.cpp
index 9849870..2d4e4a1 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/evpfft.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/evpfft.cpp
@@ -570,6 +570,12 @@ void EVPFFT::solve() {
   for (imicro = 1; imicro <= nsteps; imicro++) {
     evolve();
   }
+
+#ifndef ABSOLUTE_NO_OUTPUT
+  // make sure that everything is stored
+  ofile_mgr.close_files();
+  micro_writer->close();
+#endif
   return;
 }
 
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/hdf5_io_functions.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/hdf5_io_functions.cpp
index dac843b..8c15530 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/hdf5_io_functions.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/hdf5_io_functions.cpp
@@ -90,7 +90,7 @@ hid_t create_hdf5_file(const char *filename, MPI_Comm mpi_hdf5_comm)
     H5Pclose(file_access_plist);
     MPI_Info_free(&mpi_info);
 
-    return file_identifier;
+    return check_hdf5_status(file_identifier, "H5Fcreate", filename);
 }
 
 hid_t create_hdf5_dataset(const char *dataset_name, hid_t hdf5_datatype, 
@@ -109,7 +109,7 @@ hid_t create_hdf5_dataset(const char *dataset_name, hid_t hdf5_datatype,
       dataset_creation_plist,   // Arg 6: dataset creation property list
       dataset_access_plist);    // Arg 7: dataset access property list
 
-    return dataset;
+    return check_hdf5_status(dataset, "H5Dcreate2", dataset_name);
 }
 
 hid_t open_hdf5_file(const char *filename, MPI_Comm mpi_hdf5_comm)
@@ -132,7 +132,7 @@ hid_t open_hdf5_file(const char *filename, MPI_Comm mpi_hdf5_comm)
     // release the file access template
     H5Pclose(file_access_plist);
 
-    return file_identifier;
+    return check_hdf5_status(file_identifier, "H5Fopen", filename);
 }
 
 hid_t open_hdf5_dataset(const char *dataset_name, hid_t file_identifier)
@@ -145,5 +145,5 @@ hid_t open_hdf5_dataset(const char *dataset_name, hid_t file_identifier)
       dataset_name,           // Arg 2: dataset name to match for read
       dataset_access_plist);  // Arg 3: dataset access property list
 
-    return dataset;
+    return check_hdf5_status(dataset, "H5Dopen2", dataset_name);
 }
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/hdf5_io_functions.h b/apps/micromechanics/LS-EVPFFT-J2/src/hdf5_io_functions.h
index ba646cb..3f9789d 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/hdf5_io_functions.h
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/hdf5_io_functions.h
@@ -3,6 +3,18 @@
 #include "hdf5.h"
 #include "mpi.h"
 #include <iostream>
+#include <stdexcept>
+#include <string>
+
+// throws if an hdf5 function has failed, otherwise returns its result
+template <typename R>
+R check_hdf5_status(R result, const char *function_name, const char *object_name)
+{
+    if (result < 0) {
+        throw std::runtime_error(std::string(function_name) + " failed for " + object_name);
+    }
+    return result;
+}
 
 hid_t create_hdf5_filespace(int num_dims_, 
     const int *global_array_dims_, const int *local_array_dims_,
@@ -69,10 +81,10 @@ void write_hdf5_dataset(const char *dataset_name, R *data_ptr,
     H5Pset_dxpl_mpio(xfer_plist, H5FD_MPIO_COLLECTIVE);
 
     // write the data to disk using both the memory space and the data space.
-    H5Dwrite(dataset, hdf5_datatype, memspace, filespace, xfer_plist,
-             data_ptr);
+    check_hdf5_status(H5Dwrite(dataset, hdf5_datatype, memspace, filespace, xfer_plist,
+                      data_ptr), "H5Dwrite", dataset_name);
 
-    H5Dclose(dataset);
+    check_hdf5_status(H5Dclose(dataset), "H5Dclose", dataset_name);
 
     H5Pclose(xfer_plist);
 }
@@ -90,7 +102,8 @@ void read_hdf5_dataset(const char *dataset_name, R *data_ptr,
     H5Pset_dxpl_mpio(xfer_plist, H5FD_MPIO_COLLECTIVE);
 
     // read the data from disk using both the memory space and the data space.
-    H5Dread(dataset, hdf5_datatype, memspace, filespace, H5P_DEFAULT, data_ptr);
+    check_hdf5_status(H5Dread(dataset, hdf5_datatype, memspace, filespace, H5P_DEFAULT, data_ptr),
+                      "H5Dread", dataset_name);
 
     H5Dclose(dataset);
 
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/micro_output_writer.h b/apps/micromechanics/LS-EVPFFT-J2/src/micro_output_writer.h
index ec24f58..aaba6ac 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/micro_output_writer.h
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/micro_output_writer.h
@@ -11,6 +11,7 @@ struct MicroOutputWriter
         const int *stride=nullptr);
     MicroOutputWriter(const MicroOutputWriter &) = delete;
     ~MicroOutputWriter();
+    void close(); // throws if the file could not be stored
 
     template <typename T>
     void reverse_array(T *arr, int start, int end);
@@ -98,11 +99,20 @@ MicroOutputWriter<ARRAY_LAYOUT>::~MicroOutputWriter()
     H5Sclose(memspace_);
     memspace_ = H5S_NULL;
 
-    H5Fclose(file_id_);
+    if (file_id_ >= 0) H5Fclose(file_id_);
 #endif
 };
 
 
+template <int ARRAY_LAYOUT>
+void MicroOutputWriter<ARRAY_LAYOUT>::close()
+{
+    hid_t file_id = file_id_;
+    file_id_ = -1;
+    check_hdf5_status(H5Fclose(file_id), "H5Fclose", filename_);
+}
+
+
 template <int ARRAY_LAYOUT>
 template<typename T>
 void MicroOutputWriter<ARRAY_LAYOUT>::reverse_array(T *arr, int start, int end)
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/output_file_manager.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/output_file_manager.cpp
index 64f7e13..f56c8b3 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/output_file_manager.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/output_file_manager.cpp
@@ -1,6 +1,29 @@
 #include "output_file_manager.h"
 #include "utilities.h"
 #include "definitions.h"
+#include <stdexcept>
+
+namespace {
+
+struct FileCloser
+{
+  bool closed = false;
+  void operator()(FILE *file) { if (file != nullptr and not closed) fclose(file); }
+};
+
+void close_file(std::shared_ptr <FILE> & file, const char *filename)
+{
+  if (file == nullptr) return;
+  bool failed = ferror(file.get());
+  std::get_deleter <FileCloser> (file)->closed = true;
+  failed = (fclose(file.get()) != 0) or failed;
+  file.reset();
+  if (failed) {
+    throw std::runtime_error(std::string("Can't write ") + filename);
+  }
+}
+
+} // namespace
 
 OutputFileManager::OutputFileManager()
   : vm_file (nullptr)
@@ -15,16 +38,16 @@ OutputFileManager::OutputFileManager()
 void OutputFileManager::open_files()
 {
 #ifndef ABSOLUTE_NO_OUTPUT
-    vm_file = std::shared_ptr <FILE> (fopen("vm.out", "w"), &fclose);
+    vm_file = std::shared_ptr <FILE> (fopen("vm.out", "w"), FileCloser());
     check_that_file_is_open(vm_file.get(), "vm.out");
 
-    str_str_file = std::shared_ptr <FILE> (fopen("str_str.out", "w"), &fclose);
+    str_str_file = std::shared_ptr <FILE> (fopen("str_str.out", "w"), FileCloser());
     check_that_file_is_open(str_str_file.get(), "str_str.out");
 
-    err_file = std::shared_ptr <FILE> (fopen("err.out", "w"), &fclose);
+    err_file = std::shared_ptr <FILE> (fopen("err.out", "w"), FileCloser());
     check_that_file_is_open(err_file.get(), "err.out");
 
-    conv_file = std::shared_ptr <FILE> (fopen("conv.out", "w"), &fclose);
+    conv_file = std::shared_ptr <FILE> (fopen("conv.out", "w"), FileCloser());
     check_that_file_is_open(conv_file.get(), "conv.out");
 
 
@@ -42,3 +65,11 @@ void OutputFileManager::open_files()
     fprintf(err_file.get(), "STEP,IT,ERRE,ERRS,SVM,AVG_NR_IT\n");
 #endif
 }
+
+void OutputFileManager::close_files()
+{
+  close_file(vm_file, "vm.out");
+  close_file(str_str_file, "str_str.out");
+  close_file(err_file, "err.out");
+  close_file(conv_file, "conv.out");
+}
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/output_file_manager.h b/apps/micromechanics/LS-EVPFFT-J2/src/output_file_manager.h
index 27e09d6..7337fab 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/output_file_manager.h
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/output_file_manager.h
@@ -16,4 +16,5 @@ struct OutputFileManager
 
   OutputFileManager();
   void open_files();
+  void close_files(); // throws if anything that was written is not stored
 };
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/utilities.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/utilities.cpp
index 209cd3b..d59b265 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/utilities.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/utilities.cpp
@@ -27,7 +27,7 @@ void check_that_file_is_open(const std::ifstream & filestream, const char* filen
 
 void check_that_file_is_open(FILE *file_ptr, const char* filename)
 {
-  if (filename == NULL)
+  if (file_ptr == NULL)
   {
     throw std::runtime_error(std::string("Can't open ") + filename);
   }
diff --git a/apps/micromechanics/LS-EVPFFT/src/evpfft.cpp b/apps/micromechanics/LS-EVPFFT/src/evpfft.cpp
index 556b636..67f18e5 100644
--- a/apps/micromechanics/LS-EVPFFT/src/evpfft.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/evpfft.cpp
@@ -607,6 +607,12 @@ void EVPFFT::solve() {
   for (imicro = 1; imicro <= nsteps; imicro++) {
     evolve();
   }
+
+#ifndef ABSOLUTE_NO_OUTPUT
+  // make sure that everything is stored
+  ofile_mgr.close_files();
+  micro_writer->close();
+#endif
   return;
 }
 
diff --git a/apps/micromechanics/LS-EVPFFT/src/hdf5_io_functions.cpp b/apps/micromechanics/LS-EVPFFT/src/hdf5_io_functions.cpp
index dac843b..8c15530 100644
--- a/apps/micromechanics/LS-EVPFFT/src/hdf5_io_functions.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/hdf5_io_functions.cpp
@@ -90,7 +90,7 @@ hid_t create_hdf5_file(const char *filename, MPI_Comm mpi_hdf5_comm)
     H5Pclose(file_access_plist);
     MPI_Info_free(&mpi_info);
 
-    return file_identifier;
+    return check_hdf5_status(file_identifier, "H5Fcreate", filename);
 }
 
 hid_t create_hdf5_dataset(const char *dataset_name, hid_t hdf5_datatype, 
@@ -109,7 +109,7 @@ hid_t create_hdf5_dataset(const char *dataset_name, hid_t hdf5_datatype,
       dataset_creation_plist,   // Arg 6: dataset creation property list
       dataset_access_plist);    // Arg 7: dataset access property list
 
-    return dataset;
+    return check_hdf5_status(dataset, "H5Dcreate2", dataset_name);
 }
 
 hid_t open_hdf5_file(const char *filename, MPI_Comm mpi_hdf5_comm)
@@ -132,7 +132,7 @@ hid_t open_hdf5_file(const char *filename, MPI_Comm mpi_hdf5_comm)
     // release the file access template
     H5Pclose(file_access_plist);
 
-    return file_identifier;
+    return check_hdf5_status(file_identifier, "H5Fopen", filename);
 }
 
 hid_t open_hdf5_dataset(const char *dataset_name, hid_t file_identifier)
@@ -145,5 +145,5 @@ hid_t open_hdf5_dataset(const char *dataset_name, hid_t file_identifier)
       dataset_name,           // Arg 2: dataset name to match for read
       dataset_access_plist);  // Arg 3: dataset access property list
 
-    return dataset;
+    return check_hdf5_status(dataset, "H5Dopen2", dataset_name);
 }
diff --git a/apps/micromechanics/LS-EVPFFT/src/hdf5_io_functions.h b/apps/micromechanics/LS-EVPFFT/src/hdf5_io_functions.h
index ba646cb..3f9789d 100644
--- a/apps/micromechanics/LS-EVPFFT/src/hdf5_io_functions.h
+++ b/apps/micromechanics/LS-EVPFFT/src/hdf5_io_functions.h
@@ -3,6 +3,18 @@
 #include "hdf5.h"
 #include "mpi.h"
 #include <iostream>
+#include <stdexcept>
+#include <string>
+
+// throws if an hdf5 function has failed, otherwise returns its result
+template <typename R>
+R check_hdf5_status(R result, const char *function_name, const char *object_name)
+{
+    if (result < 0) {
+        throw std::runtime_error(std::string(function_name) + " failed for " + object_name);
+    }
+    return result;
+}
 
 hid_t create_hdf5_filespace(int num_dims_, 
     const int *global_array_dims_, const int *local_array_dims_,
@@ -69,10 +81,10 @@ void write_hdf5_dataset(const char *dataset_name, R *data_ptr,
     H5Pset_dxpl_mpio(xfer_plist, H5FD_MPIO_COLLECTIVE);
 
     // write the data to disk using both the memory space and the data space.
-    H5Dwrite(dataset, hdf5_datatype, memspace, filespace, xfer_plist,
-             data_ptr);
+    check_hdf5_status(H5Dwrite(dataset, hdf5_datatype, memspace, filespace, xfer_plist,
+                      data_ptr), "H5Dwrite", dataset_name);
 
-    H5Dclose(dataset);
+    check_hdf5_status(H5Dclose(dataset), "H5Dclose", dataset_name);
 
     H5Pclose(xfer_plist);
 }
@@ -90,7 +102,8 @@ void read_hdf5_dataset(const char *dataset_name, R *data_ptr,
     H5Pset_dxpl_mpio(xfer_plist, H5FD_MPIO_COLLECTIVE);
 
     // read the data from disk using both the memory space and the data space.
-    H5Dread(dataset, hdf5_datatype, memspace, filespace, H5P_DEFAULT, data_ptr);
+    check_hdf5_status(H5Dread(dataset, hdf5_datatype, memspace, filespace, H5P_DEFAULT, data_ptr),
+                      "H5Dread", dataset_name);
 
     H5Dclose(dataset);
 
diff --git a/apps/micromechanics/LS-EVPFFT/src/micro_output_writer.h b/apps/micromechanics/LS-EVPFFT/src/micro_output_writer.h
index ec24f58..aaba6ac 100644
--- a/apps/micromechanics/LS-EVPFFT/src/micro_output_writer.h
+++ b/apps/micromechanics/LS-EVPFFT/src/micro_output_writer.h
@@ -11,6 +11,7 @@ struct MicroOutputWriter
         const int *stride=nullptr);
     MicroOutputWriter(const MicroOutputWriter &) = delete;
     ~MicroOutputWriter();
+    void close(); // throws if the file could not be stored
 
     template <typename T>
     void reverse_array(T *arr, int start, int end);
@@ -98,11 +99,20 @@ MicroOutputWriter<ARRAY_LAYOUT>::~MicroOutputWriter()
     H5Sclose(memspace_);
     memspace_ = H5S_NULL;
 
-    H5Fclose(file_id_);
+    if (file_id_ >= 0) H5Fclose(file_id_);
 #endif
 };
 
 
+template <int ARRAY_LAYOUT>
+void MicroOutputWriter<ARRAY_LAYOUT>::close()
+{
+    hid_t file_id = file_id_;
+    file_id_ = -1;
+    check_hdf5_status(H5Fclose(file_id), "H5Fclose", filename_);
+}
+
+
 template <int ARRAY_LAYOUT>
 template<typename T>
 void MicroOutputWriter<ARRAY_LAYOUT>::reverse_array(T *arr, int start, int end)
diff --git a/apps/micromechanics/LS-EVPFFT/src/output_file_manager.cpp b/apps/micromechanics/LS-EVPFFT/src/output_file_manager.cpp
index 64f7e13..f56c8b3 100644
--- a/apps/micromechanics/LS-EVPFFT/src/output_file_manager.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/output_file_manager.cpp
@@ -1,6 +1,29 @@
 #include "output_file_manager.h"
 #include "utilities.h"
 #include "definitions.h"
+#include <stdexcept>
+
+namespace {
+
+struct FileCloser
+{
+  bool closed = false;
+  void operator()(FILE *file) { if (file != nullptr and not closed) fclose(file); }
+};
+
+void close_file(std::shared_ptr <FILE> & file, const char *filename)
+{
+  if (file == nullptr) return;
+  bool failed = ferror(file.get());
+  std::get_deleter <FileCloser> (file)->closed = true;
+  failed = (fclose(file.get()) != 0) or failed;
+  file.reset();
+  if (failed) {
+    throw std::runtime_error(std::string("Can't write ") + filename);
+  }
+}
+
+} // namespace
 
 OutputFileManager::OutputFileManager()
   : vm_file (nullptr)
@@ -15,16 +38,16 @@ OutputFileManager::OutputFileManager()
 void OutputFileManager::open_files()
 {
 #ifndef ABSOLUTE_NO_OUTPUT
-    vm_file = std::shared_ptr <FILE> (fopen("vm.out", "w"), &fclose);
+    vm_file = std::shared_ptr <FILE> (fopen("vm.out", "w"), FileCloser());
     check_that_file_is_open(vm_file.get(), "vm.out");
 
-    str_str_file = std::shared_ptr <FILE> (fopen("str_str.out", "w"), &fclose);
+    str_str_file = std::shared_ptr <FILE> (fopen("str_str.out", "w"), FileCloser());
     check_that_file_is_open(str_str_file.get(), "str_str.out");
 
-    err_file = std::shared_ptr <FILE> (fopen("err.out", "w"), &fclose);
+    err_file = std::shared_ptr <FILE> (fopen("err.out", "w"), FileCloser());
     check_that_file_is_open(err_file.get(), "err.out");
 
-    conv_file = std::shared_ptr <FILE> (fopen("conv.out", "w"), &fclose);
+    conv_file = std::shared_ptr <FILE> (fopen("conv.out", "w"), FileCloser());
     check_that_file_is_open(conv_file.get(), "conv.out");
 
 
@@ -42,3 +65,11 @@ void OutputFileManager::open_files()
     fprintf(err_file.get(), "STEP,IT,ERRE,ERRS,SVM,AVG_NR_IT\n");
 #endif
 }
+
+void OutputFileManager::close_files()
+{
+  close_file(vm_file, "vm.out");
+  close_file(str_str_file, "str_str.out");
+  close_file(err_file, "err.out");
+  close_file(conv_file, "conv.out");
+}
diff --git a/apps/micromechanics/LS-EVPFFT/src/output_file_manager.h b/apps/micromechanics/LS-EVPFFT/src/output_file_manager.h
index 27e09d6..7337fab 100644
--- a/apps/micromechanics/LS-EVPFFT/src/output_file_manager.h
+++ b/apps/micromechanics/LS-EVPFFT/src/output_file_manager.h
@@ -16,4 +16,5 @@ struct OutputFileManager
 
   OutputFileManager();
   void open_files();
+  void close_files(); // throws if anything that was written is not stored
 };
diff --git a/apps/micromechanics/LS-EVPFFT/src/utilities.cpp b/apps/micromechanics/LS-EVPFFT/src/utilities.cpp
index 209cd3b..d59b265 100644
--- a/apps/micromechanics/LS-EVPFFT/src/utilities.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/utilities.cpp
@@ -27,7 +27,7 @@ void check_that_file_is_open(const std::ifstream & filestream, const char* filen
 
 void check_that_file_is_open(FILE *file_ptr, const char* filename)
 {
-  if (filename == NULL)
+  if (file_ptr == NULL)
   {
     throw std::runtime_error(std::string("Can't open ") + filename);
   }
diff --git a/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp b/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
index 69b81b7..ee421d9 100644
--- a/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
@@ -699,6 +699,9 @@ void EVPFFT::write_micro_state_pvtu()
     pout.write(tmp_str.c_str(), tmp_str.length());
 
     pout.close();
+    if (!pout) {
+      throw std::runtime_error(std::string("Can't write ") + pfilename);
+    }
   }
 
   //  ---------------------------------------------------------------------------
@@ -1198,6 +1201,9 @@ void EVPFFT::write_micro_state_pvtu()
   out.write(tmp_str.c_str(), tmp_str.length());  
 
   out.close();
+  if (!out) {
+    throw std::runtime_error(std::string("Can't write ") + filename);
+  }
 
 }
 
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/evpfft.cpp b/apps/micromechanics/LSNP-EVPFFT/src/evpfft.cpp
index f094365..27d820e 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/evpfft.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/evpfft.cpp
@@ -746,6 +746,12 @@ void EVPFFT::solve() {
     }
     evolve();
   }
+
+#ifndef ABSOLUTE_NO_OUTPUT
+  // make sure that everything is stored
+  ofile_mgr.close_files();
+  micro_writer->close();
+#endif
   return;
 }
 
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/hdf5_io_functions.cpp b/apps/micromechanics/LSNP-EVPFFT/src/hdf5_io_functions.cpp
index dac843b..8c15530 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/hdf5_io_functions.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/hdf5_io_functions.cpp
@@ -90,7 +90,7 @@ hid_t create_hdf5_file(const char *filename, MPI_Comm mpi_hdf5_comm)
     H5Pclose(file_access_plist);
     MPI_Info_free(&mpi_info);
 
-    return file_identifier;
+    return check_hdf5_status(file_identifier, "H5Fcreate", filename);
 }
 
 hid_t create_hdf5_dataset(const char *dataset_name, hid_t hdf5_datatype, 
@@ -109,7 +109,7 @@ hid_t create_hdf5_dataset(const char *dataset_name, hid_t hdf5_datatype,
       dataset_creation_plist,   // Arg 6: dataset creation property list
       dataset_access_plist);    // Arg 7: dataset access property list
 
-    return dataset;
+    return check_hdf5_status(dataset, "H5Dcreate2", dataset_name);
 }
 
 hid_t open_hdf5_file(const char *filename, MPI_Comm mpi_hdf5_comm)
@@ -132,7 +132,7 @@ hid_t open_hdf5_file(const char *filename, MPI_Comm mpi_hdf5_comm)
     // release the file access template
     H5Pclose(file_access_plist);
 
-    return file_identifier;
+    return check_hdf5_status(file_identifier, "H5Fopen", filename);
 }
 
 hid_t open_hdf5_dataset(const char *dataset_name, hid_t file_identifier)
@@ -145,5 +145,5 @@ hid_t open_hdf5_dataset(const char *dataset_name, hid_t file_identifier)
       dataset_name,           // Arg 2: dataset name to match for read
       dataset_access_plist);  // Arg 3: dataset access property list
 
-    return dataset;
+    return check_hdf5_status(dataset, "H5Dopen2", dataset_name);
 }
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/hdf5_io_functions.h b/apps/micromechanics/LSNP-EVPFFT/src/hdf5_io_functions.h
index ba646cb..3f9789d 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/hdf5_io_functions.h
+++ b/apps/micromechanics/LSNP-EVPFFT/src/hdf5_io_functions.h
@@ -3,6 +3,18 @@
 #include "hdf5.h"
 #include "mpi.h"
 #include <iostream>
+#include <stdexcept>
+#include <string>
+
+// throws if an hdf5 function has failed, otherwise returns its result
+template <typename R>
+R check_hdf5_status(R result, const char *function_name, const char *object_name)
+{
+    if (result < 0) {
+        throw std::runtime_error(std::string(function_name) + " failed for " + object_name);
+    }
+    return result;
+}
 
 hid_t create_hdf5_filespace(int num_dims_, 
     const int *global_array_dims_, const int *local_array_dims_,
@@ -69,10 +81,10 @@ void write_hdf5_dataset(const char *dataset_name, R *data_ptr,
     H5Pset_dxpl_mpio(xfer_plist, H5FD_MPIO_COLLECTIVE);
 
     // write the data to disk using both the memory space and the data space.
-    H5Dwrite(dataset, hdf5_datatype, memspace, filespace, xfer_plist,
-             data_ptr);
+    check_hdf5_status(H5Dwrite(dataset, hdf5_datatype, memspace, filespace, xfer_plist,
+                      data_ptr), "H5Dwrite", dataset_name);
 
-    H5Dclose(dataset);
+    check_hdf5_status(H5Dclose(dataset), "H5Dclose", dataset_name);
 
     H5Pclose(xfer_plist);
 }
@@ -90,7 +102,8 @@ void read_hdf5_dataset(const char *dataset_name, R *data_ptr,
     H5Pset_dxpl_mpio(xfer_plist, H5FD_MPIO_COLLECTIVE);
 
     // read the data from disk using both the memory space and the data space.
-    H5Dread(dataset, hdf5_datatype, memspace, filespace, H5P_DEFAULT, data_ptr);
+    check_hdf5_status(H5Dread(dataset, hdf5_datatype, memspace, filespace, H5P_DEFAULT, data_ptr),
+                      "H5Dread", dataset_name);
 
     H5Dclose(dataset);
 
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/micro_output_writer.h b/apps/micromechanics/LSNP-EVPFFT/src/micro_output_writer.h
index ec24f58..aaba6ac 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/micro_output_writer.h
+++ b/apps/micromechanics/LSNP-EVPFFT/src/micro_output_writer.h
@@ -11,6 +11,7 @@ struct MicroOutputWriter
         const int *stride=nullptr);
     MicroOutputWriter(const MicroOutputWriter &) = delete;
     ~MicroOutputWriter();
+    void close(); // throws if the file could not be stored
 
     template <typename T>
     void reverse_array(T *arr, int start, int end);
@@ -98,11 +99,20 @@ MicroOutputWriter<ARRAY_LAYOUT>::~MicroOutputWriter()
     H5Sclose(memspace_);
     memspace_ = H5S_NULL;
 
-    H5Fclose(file_id_);
+    if (file_id_ >= 0) H5Fclose(file_id_);
 #endif
 };
 
 
+template <int ARRAY_LAYOUT>
+void MicroOutputWriter<ARRAY_LAYOUT>::close()
+{
+    hid_t file_id = file_id_;
+    file_id_ = -1;
+    check_hdf5_status(H5Fclose(file_id), "H5Fclose", filename_);
+}
+
+
 template <int ARRAY_LAYOUT>
 template<typename T>
 void MicroOutputWriter<ARRAY_LAYOUT>::reverse_array(T *arr, int start, int end)
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/output_file_manager.cpp b/apps/micromechanics/LSNP-EVPFFT/src/output_file_manager.cpp
index fe2ca44..804a06f 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/output_file_manager.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/output_file_manager.cpp
@@ -1,6 +1,29 @@
 #include "output_file_manager.h"
 #include "utilities.h"
 #include "definitions.h"
+#include <stdexcept>
+
+namespace {
+
+struct FileCloser
+{
+  bool closed = false;
+  void operator()(FILE *file) { if (file != nullptr and not closed) fclose(file); }
+};
+
+void close_file(std::shared_ptr <FILE> & file, const char *filename)
+{
+  if (file == nullptr) return;
+  bool failed = ferror(file.get());
+  std::get_deleter <FileCloser> (file)->closed = true;
+  failed = (fclose(file.get()) != 0) or failed;
+  file.reset();
+  if (failed) {
+    throw std::runtime_error(std::string("Can't write ") + filename);
+  }
+}
+
+} // namespace
 
 OutputFileManager::OutputFileManager()
   : vm_file (nullptr)
@@ -15,16 +38,16 @@ OutputFileManager::OutputFileManager()
 void OutputFileManager::open_files()
 {
 #ifndef ABSOLUTE_NO_OUTPUT
-    vm_file = std::shared_ptr <FILE> (fopen("vm.out", "w"), &fclose);
+    vm_file = std::shared_ptr <FILE> (fopen("vm.out", "w"), FileCloser());
     check_that_file_is_open(vm_file.get(), "vm.out");
 
-    str_str_file = std::shared_ptr <FILE> (fopen("str_str.out", "w"), &fclose);
+    str_str_file = std::shared_ptr <FILE> (fopen("str_str.out", "w"), FileCloser());
     check_that_file_is_open(str_str_file.get(), "str_str.out");
 
-    err_file = std::shared_ptr <FILE> (fopen("err.out", "w"), &fclose);
+    err_file = std::shared_ptr <FILE> (fopen("err.out", "w"), FileCloser());
     check_that_file_is_open(err_file.get(), "err.out");
 
-    conv_file = std::shared_ptr <FILE> (fopen("conv.out", "w"), &fclose);
+    conv_file = std::shared_ptr <FILE> (fopen("conv.out", "w"), FileCloser());
     check_that_file_is_open(conv_file.get(), "conv.out");
 
 
@@ -42,3 +65,11 @@ void OutputFileManager::open_files()
     fprintf(err_file.get(), "STEP,IT,ERRE,ERRS,ERRBC,SVM,AVG_NR_IT\n");
 #endif
 }
+
+void OutputFileManager::close_files()
+{
+  close_file(vm_file, "vm.out");
+  close_file(str_str_file, "str_str.out");
+  close_file(err_file, "err.out");
+  close_file(conv_file, "conv.out");
+}
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/output_file_manager.h b/apps/micromechanics/LSNP-EVPFFT/src/output_file_manager.h
index 27e09d6..7337fab 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/output_file_manager.h
+++ b/apps/micromechanics/LSNP-EVPFFT/src/output_file_manager.h
@@ -16,4 +16,5 @@ struct OutputFileManager
 
   OutputFileManager();
   void open_files();
+  void close_files(); // throws if anything that was written is not stored
 };
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/utilities.cpp b/apps/micromechanics/LSNP-EVPFFT/src/utilities.cpp
index 209cd3b..d59b265 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/utilities.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/utilities.cpp
@@ -27,7 +27,7 @@ void check_that_file_is_open(const std::ifstream & filestream, const char* filen
 
 void check_that_file_is_open(FILE *file_ptr, const char* filename)
 {
-  if (filename == NULL)
+  if (file_ptr == NULL)
   {
     throw std::runtime_error(std::string("Can't open ") + filename);
   }
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp b/apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp
index 4f2ebb2..e668970 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp
@@ -810,6 +810,9 @@ void EVPFFT::write_micro_state_pvtu()
     pout.write(tmp_str.c_str(), tmp_str.length());
 
     pout.close();
+    if (!pout) {
+      throw std::runtime_error(std::string("Can't write ") + pfilename);
+    }
   }
 
   //  ---------------------------------------------------------------------------
@@ -1309,6 +1312,9 @@ void EVPFFT::write_micro_state_pvtu()
   out.write(tmp_str.c_str(), tmp_str.length());  
 
   out.close();
+  if (!out) {
+    throw std::runtime_error(std::string("Can't write ") + filename);
+  }
 
 }
 
-- 
2.43.0


From 1b5ee36effd2026b93bd05afdb3a11661eeb1390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:04 +0000
Subject: [PATCH 74/81] fix: the EVPFFT programs refuse input they can not read
 or that does not fit

Every value that is missing or is not a number in the input files was silently
taken for zero or for the previous value, and phases, modes, systems and HDF5
data sets that do not fit the sizes of the input file were used as array
indices without a check. The eigenstrain file (ithermo) was read with the line
skipping of the wrong file and for 200000 grains.
---
 .../EVPFFT/src/data_crystal.cpp               | 30 +++++++++---
 .../EVPFFT/src/data_crystal_elast.cpp         |  3 +-
 apps/micromechanics/EVPFFT/src/data_grain.cpp | 48 ++++++++++++------
 apps/micromechanics/EVPFFT/src/definitions.h  |  3 +-
 apps/micromechanics/EVPFFT/src/utilities.cpp  |  7 +++
 apps/micromechanics/EVPFFT/src/utilities.h    |  4 ++
 apps/micromechanics/EVPFFT/src/vpsc_input.cpp | 19 ++++---
 .../LS-EVPFFT-J2/src/data_crystal.cpp         | 30 +++++++++---
 .../LS-EVPFFT-J2/src/data_crystal_elast.cpp   |  3 +-
 .../LS-EVPFFT-J2/src/data_grain.cpp           | 48 ++++++++++++------
 .../LS-EVPFFT-J2/src/definitions.h            |  3 +-
 .../LS-EVPFFT-J2/src/utilities.cpp            |  7 +++
 .../LS-EVPFFT-J2/src/utilities.h              |  4 ++
 .../LS-EVPFFT-J2/src/vpsc_input.cpp           | 19 ++++---
 .../LS-EVPFFT/src/data_crystal.cpp            | 30 +++++++++---
 .../LS-EVPFFT/src/data_crystal_elast.cpp      |  3 +-
 .../LS-EVPFFT/src/data_grain.cpp              | 48 ++++++++++++------
 .../LS-EVPFFT/src/definitions.h               |  3 +-
 .../LS-EVPFFT/src/utilities.cpp               |  7 +++
 apps/micromechanics/LS-EVPFFT/src/utilities.h |  4 ++
 .../LS-EVPFFT/src/vpsc_input.cpp              | 19 ++++---
 .../LSNP-EVPFFT/src/data_crystal.cpp          | 30 +++++++++---
 .../LSNP-EVPFFT/src/data_crystal_elast.cpp    |  3 +-
 .../LSNP-EVPFFT/src/data_grain.cpp            | 49 +++++++++++++------
 .../LSNP-EVPFFT/src/definitions.h             |  3 +-
 .../LSNP-EVPFFT/src/utilities.cpp             |  7 +++
 .../LSNP-EVPFFT/src/utilities.h               |  4 ++
 .../LSNP-EVPFFT/src/vpsc_input.cpp            | 19 ++++---
 28 files changed, 329 insertions(+), 128 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/data_crystal.cpp b/apps/micromechanics/EVPFFT/src/data_crystal.cpp
index ab38313..2b5eae1 100644
--- a/apps/micromechanics/EVPFFT/src/data_crystal.cpp
+++ b/apps/micromechanics/EVPFFT/src/data_crystal.cpp
@@ -1,4 +1,6 @@
 #include <iostream>
+#include <algorithm>
+#include <cmath>
 
 #include "evpfft.h"
 #include "definitions.h"
@@ -10,13 +12,11 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
 {
 
   std::ifstream ur1;
-  ur1.open(filecryspl);
-  check_that_file_is_open(ur1, filecryspl.c_str());
+  open_input_file(ur1, filecryspl);
   std::string prosa;
 
   MatrixTypeIntHost isn(NSYSMX,4);
   MatrixTypeIntHost isb(NSYSMX,4);
-  MatrixTypeIntHost mode(10);
   MatrixTypeRealHost sn(3);
   MatrixTypeRealHost sb(3);
   MatrixTypeRealHost cdim(3);
@@ -24,8 +24,6 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
   MatrixTypeRealHost aux33(3,3);
   MatrixTypeRealHost aux55(5,5);
   MatrixTypeRealHost aux3333(3,3,3,3);
-  MatrixTypeRealHost hselfx(10);
-  MatrixTypeRealHost hlatex(10,10);
   int nmodesx,kount,nm,modex,nsmx,nrsx;
   int isectwx,nsysx;
   real_t covera,gamd0x,twshx,tau0xf,tau0xb,tau1x,thet0x,thet1x;
@@ -41,9 +39,18 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
 
   ur1 >> nmodesx; CLEAR_LINE(ur1);
   ur1 >> nmodes(iph); CLEAR_LINE(ur1);
+  if (nmodes(iph) < 0 || nmodes(iph) > nmodesx || nmodes(iph) > NMODMX) {
+    throw std::runtime_error(filecryspl + ": the number of active modes is larger than the number of modes or NMODMX");
+  }
+  MatrixTypeIntHost mode(std::max(1,nmodesx));
+  MatrixTypeRealHost hselfx(std::max(1,nmodesx));
+  MatrixTypeRealHost hlatex(std::max(1,nmodesx),std::max(1,nmodesx));
   for (int i = 1; i <= mode.size(); i++) mode(i) = 0;
   for (int i = 1; i <= nmodes(iph); i++) {
     ur1 >> mode(i);
+    if (mode(i) < 1 || mode(i) > nmodesx) {
+      throw std::runtime_error(filecryspl + ": there is no mode " + std::to_string(mode(i)));
+    }
   }
   CLEAR_LINE(ur1);
 
@@ -79,7 +86,7 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
       thet1x *= stress_scale;
 
       //     SKIPS nsmx LINES IF THE MODE IS NOT IN THE LIST.
-      if (modex != mode(kount)) {
+      if (kount > nmodes(iph) || modex != mode(kount)) {
         for (int iz = 1; iz <= nsmx; iz++) {
           CLEAR_LINE(ur1);
         } 
@@ -106,6 +113,10 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
         hlatex(kount,i) = hlatex(nm,mode(i));
       }
 
+      if (nsmx < 0 || nsyst.host(iph) + nsmx > NSYSMX) {
+        throw std::runtime_error(filecryspl + ": the number of systems of the active modes is larger than NSYSMX");
+      }
+
       // SYSTEMS GIVEN IN FOUR INDEX NOTATION: HEXAGONALS AND TRIGONALS
       // SYSTEMS GIVEN IN THREE INDEX NOTATION: CUBIC AND ORTHORHOMBIC
       if (icryst(iph).substr(0,3) == "HEX" || icryst(iph).substr(0,3) == "TRI" ||
@@ -198,7 +209,7 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
           prod += dnca.host(j,nsysx,iph) * dbca.host(j,nsysx,iph);
         }
 
-        if (prod >= 1.0e-3) {
+        if (fabs(prod) >= 1.0e-3) {
           printf("SYSTEM %d IN MODE %d IN PHASE %d IS NOT ORTHOGONAL !!\n", js, nm, iph);
           printf("%d %d %d", isb(js,1), isb(js,2), isb(js,3));
           printf("%d %d %d", isn(js,1), isn(js,2), isn(js,3));
@@ -259,6 +270,11 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
   //} // end of label_100 scope
   } // end for (nm)
 
+  if (kount != nmodes(iph) + 1) {
+    throw std::runtime_error(filecryspl + ": mode " + std::to_string(mode(kount)) +
+                             " is not there or is not listed in the order of the file");
+  }
+
   //     INITIALIZE SELF & LATENT HARDENING COEFS FOR EACH SYSTEM OF THE PHASE.
   //     ABSOLUTE UNITS ARE ACCOUNTED FOR BY MODULATING FACTOR IN HARDENING LAW.
 
diff --git a/apps/micromechanics/EVPFFT/src/data_crystal_elast.cpp b/apps/micromechanics/EVPFFT/src/data_crystal_elast.cpp
index 8431baa..93def39 100644
--- a/apps/micromechanics/EVPFFT/src/data_crystal_elast.cpp
+++ b/apps/micromechanics/EVPFFT/src/data_crystal_elast.cpp
@@ -9,8 +9,7 @@ using namespace utils;
 void EVPFFT::data_crystal_elast(int iph, const std::string & filecrysel)
 {
   std::ifstream ur1;
-  ur1.open(filecrysel);
-  check_that_file_is_open(ur1, filecrysel.c_str());
+  open_input_file(ur1, filecrysel);
 
   MatrixTypeRealHost dde(3,3);
   MatrixTypeRealHost xid4(3,3,3,3);
diff --git a/apps/micromechanics/EVPFFT/src/data_grain.cpp b/apps/micromechanics/EVPFFT/src/data_grain.cpp
index e5c4c7a..0e6dad1 100644
--- a/apps/micromechanics/EVPFFT/src/data_grain.cpp
+++ b/apps/micromechanics/EVPFFT/src/data_grain.cpp
@@ -9,7 +9,7 @@
 
 using namespace utils;
 
-int get_dataset_rank(hid_t hdf5_file_id, const char *dataset_name);
+int get_dataset_rank(hid_t hdf5_file_id, const char *dataset_name, const int *array_dims);
 
 void EVPFFT::data_grain(const std::string & filetext)
 {
@@ -63,6 +63,11 @@ void EVPFFT::data_grain(const std::string & filetext)
       om  = om_array(ii,jj,kk);
       jph = jphase.host(ii,jj,kk);
 
+      if (jph < 1 || jph > nph) {
+        throw std::runtime_error("a voxel of " + filetext + " has phase " + std::to_string(jph) +
+                                 ", which is not one of the phases of the input file");
+      }
+
       if (jph == 1) nph1 = nph1 + 1;
       if (igas.host(jph) == 1) continue; // nothing needs to be done if gas phase
            
@@ -169,8 +174,7 @@ void EVPFFT::data_grain(const std::string & filetext)
 void EVPFFT::read_classic_los_alamos_texture_file(const std::string & filetext)
 {
   std::ifstream ur2;
-  ur2.open(filetext);
-  check_that_file_is_open(ur2, filetext.c_str());
+  open_input_file(ur2, filetext);
 
   real_t ph, th, om;
   int iiii, jjjj, kkkk, jgr, jph;
@@ -211,15 +215,6 @@ void EVPFFT::read_hdf5_texture_file(const std::string & filetext)
   // open hdf5 file
   hid_t hdf5_file_id = open_hdf5_file(filetext.c_str(), mpi_comm);
  
-  // get all dataset ranks
-  int EulerAnglesRank = get_dataset_rank(hdf5_file_id, cmd.EulerAnglesFullPath.c_str());
-  int FeatureIdsRank = get_dataset_rank(hdf5_file_id, cmd.FeatureIdsFullPath.c_str());
-  int PhaseIdsRank = get_dataset_rank(hdf5_file_id, cmd.PhaseIdsFullPath.c_str());
-
-  if (EulerAnglesRank != 4) {
-    throw std::runtime_error("EulerAngles should be stored as rank 4 array in hdf5 file");
-  }
-    
   // set dims and others
   // Note that hdf5 is stored in C layout, and when read from a c or c++ program
   // it reads in c-array-order but when read from fortran it reads in fortran-array-layout.
@@ -231,6 +226,15 @@ void EVPFFT::read_hdf5_texture_file(const std::string & filetext)
   int EulerAngles_local_array_dims[4] = {npts3,npts2,npts1,3};
   int start_coordinates[4] = {local_start3,local_start2,local_start1,0};
   int stride[4] = {1,1,1,1};
+
+  // get all dataset ranks
+  int EulerAnglesRank = get_dataset_rank(hdf5_file_id, cmd.EulerAnglesFullPath.c_str(), EulerAngles_global_array_dims);
+  int FeatureIdsRank = get_dataset_rank(hdf5_file_id, cmd.FeatureIdsFullPath.c_str(), global_array_dims);
+  int PhaseIdsRank = get_dataset_rank(hdf5_file_id, cmd.PhaseIdsFullPath.c_str(), global_array_dims);
+
+  if (EulerAnglesRank != 4) {
+    throw std::runtime_error("EulerAngles should be stored as rank 4 array in hdf5 file");
+  }
   
   // create filespace, memspace
   hid_t FeatureIds_filespace = create_hdf5_filespace(FeatureIdsRank, global_array_dims, local_array_dims,
@@ -297,21 +301,33 @@ void EVPFFT::read_hdf5_texture_file(const std::string & filetext)
   H5Fclose(hdf5_file_id);
 }
 
-int get_dataset_rank(hid_t hdf5_file_id, const char *dataset_name)
+// the dataset should have one entry for each voxel: array_dims, of which the last dimension may be left out
+int get_dataset_rank(hid_t hdf5_file_id, const char *dataset_name, const int *array_dims)
 {
   int dataset_rank;
-  hid_t dataset = H5Dopen2(hdf5_file_id, dataset_name, H5P_DEFAULT);
+  hid_t dataset = open_hdf5_dataset(dataset_name, hdf5_file_id);
   hid_t dataspace = H5Dget_space(dataset);
   dataset_rank = H5Sget_simple_extent_ndims(dataspace);
+  bool dims_match = (dataset_rank == 3 || dataset_rank == 4);
+  if (dims_match) {
+    hsize_t dims[4];
+    H5Sget_simple_extent_dims(dataspace, dims, NULL);
+    for (int i = 0; i < dataset_rank; i++) {
+      if (dims[i] != (hsize_t)array_dims[i]) dims_match = false;
+    }
+  }
+  H5Sclose(dataspace);
   H5Dclose(dataset);
+  if (!dims_match) {
+    throw std::runtime_error(std::string(dataset_name) + " does not have the dimensions of the grid");
+  }
   return dataset_rank;
 }
 
 void EVPFFT::read_vtk_lattice_structure(const std::string & filetext)
 {
   std::ifstream ur2;
-  ur2.open(filetext);
-  check_that_file_is_open(ur2, filetext.c_str());
+  open_input_file(ur2, filetext);
 
   // Skip header lines
   std::string line;
diff --git a/apps/micromechanics/EVPFFT/src/definitions.h b/apps/micromechanics/EVPFFT/src/definitions.h
index 015fc7e..fbd693c 100644
--- a/apps/micromechanics/EVPFFT/src/definitions.h
+++ b/apps/micromechanics/EVPFFT/src/definitions.h
@@ -79,7 +79,8 @@ using ViewMatrixTypeReal    = ViewFMatrixKokkos <real_t>;
 
 // Definitions for printing and file manipulation
 #define screenOut stdout
-#define CLEAR_LINE(ifstream) ( ifstream.ignore(std::numeric_limits<std::streamsize>::max(), '\n') );
+// the last line of a file may end without a newline
+#define CLEAR_LINE(ifstream) if (!ifstream.eof()) { ifstream.ignore(std::numeric_limits<std::streamsize>::max(), '\n'); }
 #define FULL_INPUT_PATH(filename) ( _INPUT_DIR filename )
 #define FULL_OUTPUT_PATH(filename) ( _OUTPUT_DIR filename )
 
diff --git a/apps/micromechanics/EVPFFT/src/utilities.cpp b/apps/micromechanics/EVPFFT/src/utilities.cpp
index d59b265..8370da0 100644
--- a/apps/micromechanics/EVPFFT/src/utilities.cpp
+++ b/apps/micromechanics/EVPFFT/src/utilities.cpp
@@ -25,6 +25,13 @@ void check_that_file_is_open(const std::ifstream & filestream, const char* filen
   }
 }
 
+void open_input_file(std::ifstream & filestream, const std::string & filename)
+{
+  filestream.open(filename);
+  check_that_file_is_open(filestream, filename.c_str());
+  filestream.exceptions(std::ifstream::failbit | std::ifstream::badbit);
+}
+
 void check_that_file_is_open(FILE *file_ptr, const char* filename)
 {
   if (file_ptr == NULL)
diff --git a/apps/micromechanics/EVPFFT/src/utilities.h b/apps/micromechanics/EVPFFT/src/utilities.h
index 34956b8..d5fc06e 100644
--- a/apps/micromechanics/EVPFFT/src/utilities.h
+++ b/apps/micromechanics/EVPFFT/src/utilities.h
@@ -2,6 +2,7 @@
 #include "definitions.h"
 #include <fstream>
 #include <iomanip>
+#include <string>
 #include "mpi.h"
 
 using namespace utils;
@@ -14,6 +15,9 @@ int get_mpi_comm_size(const MPI_Comm mpi_comm);
 void check_that_file_is_open(const std::ifstream & filestream, const char* filename);
 void check_that_file_is_open(FILE *file_ptr, const char* filename);
 
+// opens an input file; anything that can not be read from it throws
+void open_input_file(std::ifstream & filestream, const std::string & filename);
+
 // minval
 template <typename T>
 T minval(T *ptr, int N);
diff --git a/apps/micromechanics/EVPFFT/src/vpsc_input.cpp b/apps/micromechanics/EVPFFT/src/vpsc_input.cpp
index 9328efd..28722d4 100644
--- a/apps/micromechanics/EVPFFT/src/vpsc_input.cpp
+++ b/apps/micromechanics/EVPFFT/src/vpsc_input.cpp
@@ -15,6 +15,7 @@
 
 
 #include <iostream>
+#include <algorithm>
 #include <stdio.h>
 #include <assert.h>
 #include <fstream>
@@ -48,15 +49,21 @@ void EVPFFT::vpsc_input()
 
 // *********   INITIALIZATION BLOCK   ***************************
   
-  ur0.open(cmd.input_filename);
-  check_that_file_is_open(ur0, cmd.input_filename.c_str());
+  open_input_file(ur0, cmd.input_filename);
 
   ur0 >> NPHMX >> NMODMX >> NTWMMX >> NSYSMX; CLEAR_LINE(ur0);
   ur0 >> npts1_g >> npts2_g >> npts3_g; CLEAR_LINE(ur0);
 
+  if (NPHMX < 1 || npts1_g < 1 || npts2_g < 1 || npts3_g < 1) {
+    throw std::runtime_error("NPHMX and the grid sizes in " + cmd.input_filename + " should be at least 1");
+  }
+
   allocate_memory();
 
   ur0 >> nph; CLEAR_LINE(ur0);
+  if (nph < 1 || nph > NPHMX) {
+    throw std::runtime_error("the number of phases should be between 1 and NPHMX");
+  }
 
   // THE FOLLOWING REQUIRED FOR SEVERAL ROUTINES WITH 'do iph=iphbot,iphtop'
   iphbot = 1;
@@ -193,18 +200,18 @@ void EVPFFT::vpsc_input()
 
   ur0 >> ithermo; CLEAR_LINE(ur0);
   if (ithermo == 1) {
-    int num_crystals = 200000; // maximum number of crystals/grains
+    // the file has one line for each crystal/grain
+    int num_crystals = std::max(1, maxval(jgrain.pointer(), jgrain.size()));
     eth = MatrixTypeRealHost (3,3,num_crystals);
 
     ur0 >> filethermo; CLEAR_LINE(ur0);
     std::ifstream f49;
-    f49.open(filethermo);
-    check_that_file_is_open(f49, filethermo.c_str());
+    open_input_file(f49, filethermo);
 
     for (int ig = 1; ig <= num_crystals; ig++) {
       f49 >> eth(1,1,ig) >> eth(2,2,ig)
           >> eth(3,3,ig) >> eth(2,3,ig)
-          >> eth(3,1,ig) >> eth(1,2,ig); CLEAR_LINE(ur0);
+          >> eth(3,1,ig) >> eth(1,2,ig); CLEAR_LINE(f49);
 
       eth(3,2,ig) = eth(2,3,ig);
       eth(1,3,ig) = eth(3,1,ig);
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/data_crystal.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/data_crystal.cpp
index c3f31fd..27f4c32 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/data_crystal.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/data_crystal.cpp
@@ -1,4 +1,6 @@
 #include <iostream>
+#include <algorithm>
+#include <cmath>
 
 #include "evpfft.h"
 #include "definitions.h"
@@ -10,13 +12,11 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
 {
 
   std::ifstream ur1;
-  ur1.open(filecryspl);
-  check_that_file_is_open(ur1, filecryspl.c_str());
+  open_input_file(ur1, filecryspl);
   std::string prosa;
 
   MatrixTypeIntHost isn(NSYSMX,4);
   MatrixTypeIntHost isb(NSYSMX,4);
-  MatrixTypeIntHost mode(10);
   MatrixTypeRealHost sn(3);
   MatrixTypeRealHost sb(3);
   MatrixTypeRealHost cdim(3);
@@ -24,8 +24,6 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
   MatrixTypeRealHost aux33(3,3);
   MatrixTypeRealHost aux55(5,5);
   MatrixTypeRealHost aux3333(3,3,3,3);
-  MatrixTypeRealHost hselfx(10);
-  MatrixTypeRealHost hlatex(10,10);
   int nmodesx,kount,nm,modex,nsmx,nrsx;
   int isectwx,nsysx,nrs_j2x;
   real_t covera,gamd0x,twshx,tau0xf,tau0xb,tau1x,thet0x,thet1x;
@@ -60,9 +58,18 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
   
     ur1 >> nmodesx; CLEAR_LINE(ur1);
     ur1 >> nmodes(iph); CLEAR_LINE(ur1);
+    if (nmodes(iph) < 0 || nmodes(iph) > nmodesx || nmodes(iph) > NMODMX) {
+      throw std::runtime_error(filecryspl + ": the number of active modes is larger than the number of modes or NMODMX");
+    }
+    MatrixTypeIntHost mode(std::max(1,nmodesx));
+    MatrixTypeRealHost hselfx(std::max(1,nmodesx));
+    MatrixTypeRealHost hlatex(std::max(1,nmodesx),std::max(1,nmodesx));
     for (int i = 1; i <= mode.size(); i++) mode(i) = 0;
     for (int i = 1; i <= nmodes(iph); i++) {
       ur1 >> mode(i);
+      if (mode(i) < 1 || mode(i) > nmodesx) {
+        throw std::runtime_error(filecryspl + ": there is no mode " + std::to_string(mode(i)));
+      }
     }
     CLEAR_LINE(ur1);
   
@@ -98,7 +105,7 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
         thet1x *= stress_scale;
   
         //     SKIPS nsmx LINES IF THE MODE IS NOT IN THE LIST.
-        if (modex != mode(kount)) {
+        if (kount > nmodes(iph) || modex != mode(kount)) {
           for (int iz = 1; iz <= nsmx; iz++) {
             CLEAR_LINE(ur1);
           } 
@@ -125,6 +132,10 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
           hlatex(kount,i) = hlatex(nm,mode(i));
         }
   
+        if (nsmx < 0 || nsyst.host(iph) + nsmx > NSYSMX) {
+          throw std::runtime_error(filecryspl + ": the number of systems of the active modes is larger than NSYSMX");
+        }
+
         // SYSTEMS GIVEN IN FOUR INDEX NOTATION: HEXAGONALS AND TRIGONALS
         // SYSTEMS GIVEN IN THREE INDEX NOTATION: CUBIC AND ORTHORHOMBIC
         if (icryst(iph).substr(0,3) == "HEX" || icryst(iph).substr(0,3) == "TRI" ||
@@ -217,7 +228,7 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
             prod += dnca.host(j,nsysx,iph) * dbca.host(j,nsysx,iph);
           }
   
-          if (prod >= 1.0e-3) {
+          if (fabs(prod) >= 1.0e-3) {
             printf("SYSTEM %d IN MODE %d IN PHASE %d IS NOT ORTHOGONAL !!\n", js, nm, iph);
             printf("%d %d %d", isb(js,1), isb(js,2), isb(js,3));
             printf("%d %d %d", isn(js,1), isn(js,2), isn(js,3));
@@ -277,6 +288,11 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
       //} while (nm < nmodesx); // end of do/while loop
     //} // end of label_100 scope
     } // end for (nm)
+
+    if (kount != nmodes(iph) + 1) {
+      throw std::runtime_error(filecryspl + ": mode " + std::to_string(mode(kount)) +
+                               " is not there or is not listed in the order of the file");
+    }
   
     //     INITIALIZE SELF & LATENT HARDENING COEFS FOR EACH SYSTEM OF THE PHASE.
     //     ABSOLUTE UNITS ARE ACCOUNTED FOR BY MODULATING FACTOR IN HARDENING LAW.
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/data_crystal_elast.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/data_crystal_elast.cpp
index 8431baa..93def39 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/data_crystal_elast.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/data_crystal_elast.cpp
@@ -9,8 +9,7 @@ using namespace utils;
 void EVPFFT::data_crystal_elast(int iph, const std::string & filecrysel)
 {
   std::ifstream ur1;
-  ur1.open(filecrysel);
-  check_that_file_is_open(ur1, filecrysel.c_str());
+  open_input_file(ur1, filecrysel);
 
   MatrixTypeRealHost dde(3,3);
   MatrixTypeRealHost xid4(3,3,3,3);
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/data_grain.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/data_grain.cpp
index c707545..69fa9e2 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/data_grain.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/data_grain.cpp
@@ -9,7 +9,7 @@
 
 using namespace utils;
 
-int get_dataset_rank(hid_t hdf5_file_id, const char *dataset_name);
+int get_dataset_rank(hid_t hdf5_file_id, const char *dataset_name, const int *array_dims);
 
 void EVPFFT::data_grain(const std::string & filetext)
 {
@@ -63,6 +63,11 @@ void EVPFFT::data_grain(const std::string & filetext)
       om  = om_array(ii,jj,kk);
       jph = jphase.host(ii,jj,kk);
 
+      if (jph < 1 || jph > nph) {
+        throw std::runtime_error("a voxel of " + filetext + " has phase " + std::to_string(jph) +
+                                 ", which is not one of the phases of the input file");
+      }
+
       if (jph == 1) nph1 = nph1 + 1;
       if (igas.host(jph) == 1) continue; // nothing needs to be done if gas phase
            
@@ -169,8 +174,7 @@ void EVPFFT::data_grain(const std::string & filetext)
 void EVPFFT::read_classic_los_alamos_texture_file(const std::string & filetext)
 {
   std::ifstream ur2;
-  ur2.open(filetext);
-  check_that_file_is_open(ur2, filetext.c_str());
+  open_input_file(ur2, filetext);
 
   real_t ph, th, om;
   int iiii, jjjj, kkkk, jgr, jph;
@@ -211,15 +215,6 @@ void EVPFFT::read_hdf5_texture_file(const std::string & filetext)
   // open hdf5 file
   hid_t hdf5_file_id = open_hdf5_file(filetext.c_str(), mpi_comm);
  
-  // get all dataset ranks
-  int EulerAnglesRank = get_dataset_rank(hdf5_file_id, cmd.EulerAnglesFullPath.c_str());
-  int FeatureIdsRank = get_dataset_rank(hdf5_file_id, cmd.FeatureIdsFullPath.c_str());
-  int PhaseIdsRank = get_dataset_rank(hdf5_file_id, cmd.PhaseIdsFullPath.c_str());
-
-  if (EulerAnglesRank != 4) {
-    throw std::runtime_error("EulerAngles should be stored as rank 4 array in hdf5 file");
-  }
-    
   // set dims and others
   // Note that hdf5 is stored in C layout, and when read from a c or c++ program
   // it reads in c-array-order but when read from fortran it reads in fortran-array-layout.
@@ -231,6 +226,15 @@ void EVPFFT::read_hdf5_texture_file(const std::string & filetext)
   int EulerAngles_local_array_dims[4] = {npts3,npts2,npts1,3};
   int start_coordinates[4] = {local_start3,local_start2,local_start1,0};
   int stride[4] = {1,1,1,1};
+
+  // get all dataset ranks
+  int EulerAnglesRank = get_dataset_rank(hdf5_file_id, cmd.EulerAnglesFullPath.c_str(), EulerAngles_global_array_dims);
+  int FeatureIdsRank = get_dataset_rank(hdf5_file_id, cmd.FeatureIdsFullPath.c_str(), global_array_dims);
+  int PhaseIdsRank = get_dataset_rank(hdf5_file_id, cmd.PhaseIdsFullPath.c_str(), global_array_dims);
+
+  if (EulerAnglesRank != 4) {
+    throw std::runtime_error("EulerAngles should be stored as rank 4 array in hdf5 file");
+  }
   
   // create filespace, memspace
   hid_t FeatureIds_filespace = create_hdf5_filespace(FeatureIdsRank, global_array_dims, local_array_dims,
@@ -297,21 +301,33 @@ void EVPFFT::read_hdf5_texture_file(const std::string & filetext)
   H5Fclose(hdf5_file_id);
 }
 
-int get_dataset_rank(hid_t hdf5_file_id, const char *dataset_name)
+// the dataset should have one entry for each voxel: array_dims, of which the last dimension may be left out
+int get_dataset_rank(hid_t hdf5_file_id, const char *dataset_name, const int *array_dims)
 {
   int dataset_rank;
-  hid_t dataset = H5Dopen2(hdf5_file_id, dataset_name, H5P_DEFAULT);
+  hid_t dataset = open_hdf5_dataset(dataset_name, hdf5_file_id);
   hid_t dataspace = H5Dget_space(dataset);
   dataset_rank = H5Sget_simple_extent_ndims(dataspace);
+  bool dims_match = (dataset_rank == 3 || dataset_rank == 4);
+  if (dims_match) {
+    hsize_t dims[4];
+    H5Sget_simple_extent_dims(dataspace, dims, NULL);
+    for (int i = 0; i < dataset_rank; i++) {
+      if (dims[i] != (hsize_t)array_dims[i]) dims_match = false;
+    }
+  }
+  H5Sclose(dataspace);
   H5Dclose(dataset);
+  if (!dims_match) {
+    throw std::runtime_error(std::string(dataset_name) + " does not have the dimensions of the grid");
+  }
   return dataset_rank;
 }
 
 void EVPFFT::read_vtk_lattice_structure(const std::string & filetext)
 {
   std::ifstream ur2;
-  ur2.open(filetext);
-  check_that_file_is_open(ur2, filetext.c_str());
+  open_input_file(ur2, filetext);
 
   // Skip header lines
   std::string line;
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/definitions.h b/apps/micromechanics/LS-EVPFFT-J2/src/definitions.h
index 015fc7e..fbd693c 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/definitions.h
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/definitions.h
@@ -79,7 +79,8 @@ using ViewMatrixTypeReal    = ViewFMatrixKokkos <real_t>;
 
 // Definitions for printing and file manipulation
 #define screenOut stdout
-#define CLEAR_LINE(ifstream) ( ifstream.ignore(std::numeric_limits<std::streamsize>::max(), '\n') );
+// the last line of a file may end without a newline
+#define CLEAR_LINE(ifstream) if (!ifstream.eof()) { ifstream.ignore(std::numeric_limits<std::streamsize>::max(), '\n'); }
 #define FULL_INPUT_PATH(filename) ( _INPUT_DIR filename )
 #define FULL_OUTPUT_PATH(filename) ( _OUTPUT_DIR filename )
 
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/utilities.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/utilities.cpp
index d59b265..8370da0 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/utilities.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/utilities.cpp
@@ -25,6 +25,13 @@ void check_that_file_is_open(const std::ifstream & filestream, const char* filen
   }
 }
 
+void open_input_file(std::ifstream & filestream, const std::string & filename)
+{
+  filestream.open(filename);
+  check_that_file_is_open(filestream, filename.c_str());
+  filestream.exceptions(std::ifstream::failbit | std::ifstream::badbit);
+}
+
 void check_that_file_is_open(FILE *file_ptr, const char* filename)
 {
   if (file_ptr == NULL)
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/utilities.h b/apps/micromechanics/LS-EVPFFT-J2/src/utilities.h
index 34956b8..d5fc06e 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/utilities.h
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/utilities.h
@@ -2,6 +2,7 @@
 #include "definitions.h"
 #include <fstream>
 #include <iomanip>
+#include <string>
 #include "mpi.h"
 
 using namespace utils;
@@ -14,6 +15,9 @@ int get_mpi_comm_size(const MPI_Comm mpi_comm);
 void check_that_file_is_open(const std::ifstream & filestream, const char* filename);
 void check_that_file_is_open(FILE *file_ptr, const char* filename);
 
+// opens an input file; anything that can not be read from it throws
+void open_input_file(std::ifstream & filestream, const std::string & filename);
+
 // minval
 template <typename T>
 T minval(T *ptr, int N);
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/vpsc_input.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/vpsc_input.cpp
index dda515d..85cc30d 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/vpsc_input.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/vpsc_input.cpp
@@ -15,6 +15,7 @@
 
 
 #include <iostream>
+#include <algorithm>
 #include <stdio.h>
 #include <assert.h>
 #include <fstream>
@@ -48,15 +49,21 @@ void EVPFFT::vpsc_input()
 
 // *********   INITIALIZATION BLOCK   ***************************
   
-  ur0.open(cmd.input_filename);
-  check_that_file_is_open(ur0, cmd.input_filename.c_str());
+  open_input_file(ur0, cmd.input_filename);
 
   ur0 >> NPHMX >> NMODMX >> NTWMMX >> NSYSMX; CLEAR_LINE(ur0);
   ur0 >> npts1_g >> npts2_g >> npts3_g; CLEAR_LINE(ur0);
 
+  if (NPHMX < 1 || npts1_g < 1 || npts2_g < 1 || npts3_g < 1) {
+    throw std::runtime_error("NPHMX and the grid sizes in " + cmd.input_filename + " should be at least 1");
+  }
+
   allocate_memory();
 
   ur0 >> nph; CLEAR_LINE(ur0);
+  if (nph < 1 || nph > NPHMX) {
+    throw std::runtime_error("the number of phases should be between 1 and NPHMX");
+  }
 
   // THE FOLLOWING REQUIRED FOR SEVERAL ROUTINES WITH 'do iph=iphbot,iphtop'
   iphbot = 1;
@@ -200,18 +207,18 @@ void EVPFFT::vpsc_input()
 
   ur0 >> ithermo; CLEAR_LINE(ur0);
   if (ithermo == 1) {
-    int num_crystals = 200000; // maximum number of crystals/grains
+    // the file has one line for each crystal/grain
+    int num_crystals = std::max(1, maxval(jgrain.pointer(), jgrain.size()));
     eth = MatrixTypeRealHost (3,3,num_crystals);
 
     ur0 >> filethermo; CLEAR_LINE(ur0);
     std::ifstream f49;
-    f49.open(filethermo);
-    check_that_file_is_open(f49, filethermo.c_str());
+    open_input_file(f49, filethermo);
 
     for (int ig = 1; ig <= num_crystals; ig++) {
       f49 >> eth(1,1,ig) >> eth(2,2,ig)
           >> eth(3,3,ig) >> eth(2,3,ig)
-          >> eth(3,1,ig) >> eth(1,2,ig); CLEAR_LINE(ur0);
+          >> eth(3,1,ig) >> eth(1,2,ig); CLEAR_LINE(f49);
 
       eth(3,2,ig) = eth(2,3,ig);
       eth(1,3,ig) = eth(3,1,ig);
diff --git a/apps/micromechanics/LS-EVPFFT/src/data_crystal.cpp b/apps/micromechanics/LS-EVPFFT/src/data_crystal.cpp
index 41de50d..9adec9b 100644
--- a/apps/micromechanics/LS-EVPFFT/src/data_crystal.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/data_crystal.cpp
@@ -1,4 +1,6 @@
 #include <iostream>
+#include <algorithm>
+#include <cmath>
 
 #include "evpfft.h"
 #include "definitions.h"
@@ -10,13 +12,11 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
 {
 
   std::ifstream ur1;
-  ur1.open(filecryspl);
-  check_that_file_is_open(ur1, filecryspl.c_str());
+  open_input_file(ur1, filecryspl);
   std::string prosa;
 
   MatrixTypeIntHost isn(NSYSMX,4);
   MatrixTypeIntHost isb(NSYSMX,4);
-  MatrixTypeIntHost mode(10);
   MatrixTypeRealHost sn(3);
   MatrixTypeRealHost sb(3);
   MatrixTypeRealHost cdim(3);
@@ -24,8 +24,6 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
   MatrixTypeRealHost aux33(3,3);
   MatrixTypeRealHost aux55(5,5);
   MatrixTypeRealHost aux3333(3,3,3,3);
-  MatrixTypeRealHost hselfx(10);
-  MatrixTypeRealHost hlatex(10,10);
   int nmodesx,kount,nm,modex,nsmx,nrsx;
   int isectwx,nsysx,nrs_j2x;
   real_t covera,gamd0x,twshx,tau0xf,tau0xb,tau1x,thet0x,thet1x;
@@ -60,9 +58,18 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
 
     ur1 >> nmodesx; CLEAR_LINE(ur1);
     ur1 >> nmodes(iph); CLEAR_LINE(ur1);
+    if (nmodes(iph) < 0 || nmodes(iph) > nmodesx || nmodes(iph) > NMODMX) {
+      throw std::runtime_error(filecryspl + ": the number of active modes is larger than the number of modes or NMODMX");
+    }
+    MatrixTypeIntHost mode(std::max(1,nmodesx));
+    MatrixTypeRealHost hselfx(std::max(1,nmodesx));
+    MatrixTypeRealHost hlatex(std::max(1,nmodesx),std::max(1,nmodesx));
     for (int i = 1; i <= mode.size(); i++) mode(i) = 0;
     for (int i = 1; i <= nmodes(iph); i++) {
       ur1 >> mode(i);
+      if (mode(i) < 1 || mode(i) > nmodesx) {
+        throw std::runtime_error(filecryspl + ": there is no mode " + std::to_string(mode(i)));
+      }
     }
     CLEAR_LINE(ur1);
 
@@ -98,7 +105,7 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
       thet1x *= stress_scale;
 
       //     SKIPS nsmx LINES IF THE MODE IS NOT IN THE LIST.
-      if (modex != mode(kount)) {
+      if (kount > nmodes(iph) || modex != mode(kount)) {
         for (int iz = 1; iz <= nsmx; iz++) {
           CLEAR_LINE(ur1);
         } 
@@ -125,6 +132,10 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
         hlatex(kount,i) = hlatex(nm,mode(i));
       }
 
+      if (nsmx < 0 || nsyst.host(iph) + nsmx > NSYSMX) {
+        throw std::runtime_error(filecryspl + ": the number of systems of the active modes is larger than NSYSMX");
+      }
+
       // SYSTEMS GIVEN IN FOUR INDEX NOTATION: HEXAGONALS AND TRIGONALS
       // SYSTEMS GIVEN IN THREE INDEX NOTATION: CUBIC AND ORTHORHOMBIC
       if (icryst(iph).substr(0,3) == "HEX" || icryst(iph).substr(0,3) == "TRI" ||
@@ -217,7 +228,7 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
           prod += dnca.host(j,nsysx,iph) * dbca.host(j,nsysx,iph);
         }
 
-        if (prod >= 1.0e-3) {
+        if (fabs(prod) >= 1.0e-3) {
           printf("SYSTEM %d IN MODE %d IN PHASE %d IS NOT ORTHOGONAL !!\n", js, nm, iph);
           printf("%d %d %d", isb(js,1), isb(js,2), isb(js,3));
           printf("%d %d %d", isn(js,1), isn(js,2), isn(js,3));
@@ -278,6 +289,11 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
     //} // end of label_100 scope
     } // end for (nm)
 
+    if (kount != nmodes(iph) + 1) {
+      throw std::runtime_error(filecryspl + ": mode " + std::to_string(mode(kount)) +
+                               " is not there or is not listed in the order of the file");
+    }
+
     //     INITIALIZE SELF & LATENT HARDENING COEFS FOR EACH SYSTEM OF THE PHASE.
     //     ABSOLUTE UNITS ARE ACCOUNTED FOR BY MODULATING FACTOR IN HARDENING LAW.
 
diff --git a/apps/micromechanics/LS-EVPFFT/src/data_crystal_elast.cpp b/apps/micromechanics/LS-EVPFFT/src/data_crystal_elast.cpp
index 8431baa..93def39 100644
--- a/apps/micromechanics/LS-EVPFFT/src/data_crystal_elast.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/data_crystal_elast.cpp
@@ -9,8 +9,7 @@ using namespace utils;
 void EVPFFT::data_crystal_elast(int iph, const std::string & filecrysel)
 {
   std::ifstream ur1;
-  ur1.open(filecrysel);
-  check_that_file_is_open(ur1, filecrysel.c_str());
+  open_input_file(ur1, filecrysel);
 
   MatrixTypeRealHost dde(3,3);
   MatrixTypeRealHost xid4(3,3,3,3);
diff --git a/apps/micromechanics/LS-EVPFFT/src/data_grain.cpp b/apps/micromechanics/LS-EVPFFT/src/data_grain.cpp
index c707545..69fa9e2 100644
--- a/apps/micromechanics/LS-EVPFFT/src/data_grain.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/data_grain.cpp
@@ -9,7 +9,7 @@
 
 using namespace utils;
 
-int get_dataset_rank(hid_t hdf5_file_id, const char *dataset_name);
+int get_dataset_rank(hid_t hdf5_file_id, const char *dataset_name, const int *array_dims);
 
 void EVPFFT::data_grain(const std::string & filetext)
 {
@@ -63,6 +63,11 @@ void EVPFFT::data_grain(const std::string & filetext)
       om  = om_array(ii,jj,kk);
       jph = jphase.host(ii,jj,kk);
 
+      if (jph < 1 || jph > nph) {
+        throw std::runtime_error("a voxel of " + filetext + " has phase " + std::to_string(jph) +
+                                 ", which is not one of the phases of the input file");
+      }
+
       if (jph == 1) nph1 = nph1 + 1;
       if (igas.host(jph) == 1) continue; // nothing needs to be done if gas phase
            
@@ -169,8 +174,7 @@ void EVPFFT::data_grain(const std::string & filetext)
 void EVPFFT::read_classic_los_alamos_texture_file(const std::string & filetext)
 {
   std::ifstream ur2;
-  ur2.open(filetext);
-  check_that_file_is_open(ur2, filetext.c_str());
+  open_input_file(ur2, filetext);
 
   real_t ph, th, om;
   int iiii, jjjj, kkkk, jgr, jph;
@@ -211,15 +215,6 @@ void EVPFFT::read_hdf5_texture_file(const std::string & filetext)
   // open hdf5 file
   hid_t hdf5_file_id = open_hdf5_file(filetext.c_str(), mpi_comm);
  
-  // get all dataset ranks
-  int EulerAnglesRank = get_dataset_rank(hdf5_file_id, cmd.EulerAnglesFullPath.c_str());
-  int FeatureIdsRank = get_dataset_rank(hdf5_file_id, cmd.FeatureIdsFullPath.c_str());
-  int PhaseIdsRank = get_dataset_rank(hdf5_file_id, cmd.PhaseIdsFullPath.c_str());
-
-  if (EulerAnglesRank != 4) {
-    throw std::runtime_error("EulerAngles should be stored as rank 4 array in hdf5 file");
-  }
-    
   // set dims and others
   // Note that hdf5 is stored in C layout, and when read from a c or c++ program
   // it reads in c-array-order but when read from fortran it reads in fortran-array-layout.
@@ -231,6 +226,15 @@ void EVPFFT::read_hdf5_texture_file(const std::string & filetext)
   int EulerAngles_local_array_dims[4] = {npts3,npts2,npts1,3};
   int start_coordinates[4] = {local_start3,local_start2,local_start1,0};
   int stride[4] = {1,1,1,1};
+
+  // get all dataset ranks
+  int EulerAnglesRank = get_dataset_rank(hdf5_file_id, cmd.EulerAnglesFullPath.c_str(), EulerAngles_global_array_dims);
+  int FeatureIdsRank = get_dataset_rank(hdf5_file_id, cmd.FeatureIdsFullPath.c_str(), global_array_dims);
+  int PhaseIdsRank = get_dataset_rank(hdf5_file_id, cmd.PhaseIdsFullPath.c_str(), global_array_dims);
+
+  if (EulerAnglesRank != 4) {
+    throw std::runtime_error("EulerAngles should be stored as rank 4 array in hdf5 file");
+  }
   
   // create filespace, memspace
   hid_t FeatureIds_filespace = create_hdf5_filespace(FeatureIdsRank, global_array_dims, local_array_dims,
@@ -297,21 +301,33 @@ void EVPFFT::read_hdf5_texture_file(const std::string & filetext)
   H5Fclose(hdf5_file_id);
 }
 
-int get_dataset_rank(hid_t hdf5_file_id, const char *dataset_name)
+// the dataset should have one entry for each voxel: array_dims, of which the last dimension may be left out
+int get_dataset_rank(hid_t hdf5_file_id, const char *dataset_name, const int *array_dims)
 {
   int dataset_rank;
-  hid_t dataset = H5Dopen2(hdf5_file_id, dataset_name, H5P_DEFAULT);
+  hid_t dataset = open_hdf5_dataset(dataset_name, hdf5_file_id);
   hid_t dataspace = H5Dget_space(dataset);
   dataset_rank = H5Sget_simple_extent_ndims(dataspace);
+  bool dims_match = (dataset_rank == 3 || dataset_rank == 4);
+  if (dims_match) {
+    hsize_t dims[4];
+    H5Sget_simple_extent_dims(dataspace, dims, NULL);
+    for (int i = 0; i < dataset_rank; i++) {
+      if (dims[i] != (hsize_t)array_dims[i]) dims_match = false;
+    }
+  }
+  H5Sclose(dataspace);
   H5Dclose(dataset);
+  if (!dims_match) {
+    throw std::runtime_error(std::string(dataset_name) + " does not have the dimensions of the grid");
+  }
   return dataset_rank;
 }
 
 void EVPFFT::read_vtk_lattice_structure(const std::string & filetext)
 {
   std::ifstream ur2;
-  ur2.open(filetext);
-  check_that_file_is_open(ur2, filetext.c_str());
+  open_input_file(ur2, filetext);
 
   // Skip header lines
   std::string line;
diff --git a/apps/micromechanics/LS-EVPFFT/src/definitions.h b/apps/micromechanics/LS-EVPFFT/src/definitions.h
index 015fc7e..fbd693c 100644
--- a/apps/micromechanics/LS-EVPFFT/src/definitions.h
+++ b/apps/micromechanics/LS-EVPFFT/src/definitions.h
@@ -79,7 +79,8 @@ using ViewMatrixTypeReal    = ViewFMatrixKokkos <real_t>;
 
 // Definitions for printing and file manipulation
 #define screenOut stdout
-#define CLEAR_LINE(ifstream) ( ifstream.ignore(std::numeric_limits<std::streamsize>::max(), '\n') );
+// the last line of a file may end without a newline
+#define CLEAR_LINE(ifstream) if (!ifstream.eof()) { ifstream.ignore(std::numeric_limits<std::streamsize>::max(), '\n'); }
 #define FULL_INPUT_PATH(filename) ( _INPUT_DIR filename )
 #define FULL_OUTPUT_PATH(filename) ( _OUTPUT_DIR filename )
 
diff --git a/apps/micromechanics/LS-EVPFFT/src/utilities.cpp b/apps/micromechanics/LS-EVPFFT/src/utilities.cpp
index d59b265..8370da0 100644
--- a/apps/micromechanics/LS-EVPFFT/src/utilities.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/utilities.cpp
@@ -25,6 +25,13 @@ void check_that_file_is_open(const std::ifstream & filestream, const char* filen
   }
 }
 
+void open_input_file(std::ifstream & filestream, const std::string & filename)
+{
+  filestream.open(filename);
+  check_that_file_is_open(filestream, filename.c_str());
+  filestream.exceptions(std::ifstream::failbit | std::ifstream::badbit);
+}
+
 void check_that_file_is_open(FILE *file_ptr, const char* filename)
 {
   if (file_ptr == NULL)
diff --git a/apps/micromechanics/LS-EVPFFT/src/utilities.h b/apps/micromechanics/LS-EVPFFT/src/utilities.h
index 34956b8..d5fc06e 100644
--- a/apps/micromechanics/LS-EVPFFT/src/utilities.h
+++ b/apps/micromechanics/LS-EVPFFT/src/utilities.h
@@ -2,6 +2,7 @@
 #include "definitions.h"
 #include <fstream>
 #include <iomanip>
+#include <string>
 #include "mpi.h"
 
 using namespace utils;
@@ -14,6 +15,9 @@ int get_mpi_comm_size(const MPI_Comm mpi_comm);
 void check_that_file_is_open(const std::ifstream & filestream, const char* filename);
 void check_that_file_is_open(FILE *file_ptr, const char* filename);
 
+// opens an input file; anything that can not be read from it throws
+void open_input_file(std::ifstream & filestream, const std::string & filename);
+
 // minval
 template <typename T>
 T minval(T *ptr, int N);
diff --git a/apps/micromechanics/LS-EVPFFT/src/vpsc_input.cpp b/apps/micromechanics/LS-EVPFFT/src/vpsc_input.cpp
index 2a5d0e2..e5f536d 100644
--- a/apps/micromechanics/LS-EVPFFT/src/vpsc_input.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/vpsc_input.cpp
@@ -15,6 +15,7 @@
 
 
 #include <iostream>
+#include <algorithm>
 #include <stdio.h>
 #include <assert.h>
 #include <fstream>
@@ -48,15 +49,21 @@ void EVPFFT::vpsc_input()
 
 // *********   INITIALIZATION BLOCK   ***************************
   
-  ur0.open(cmd.input_filename);
-  check_that_file_is_open(ur0, cmd.input_filename.c_str());
+  open_input_file(ur0, cmd.input_filename);
 
   ur0 >> NPHMX >> NMODMX >> NTWMMX >> NSYSMX; CLEAR_LINE(ur0);
   ur0 >> npts1_g >> npts2_g >> npts3_g; CLEAR_LINE(ur0);
 
+  if (NPHMX < 1 || npts1_g < 1 || npts2_g < 1 || npts3_g < 1) {
+    throw std::runtime_error("NPHMX and the grid sizes in " + cmd.input_filename + " should be at least 1");
+  }
+
   allocate_memory();
 
   ur0 >> nph; CLEAR_LINE(ur0);
+  if (nph < 1 || nph > NPHMX) {
+    throw std::runtime_error("the number of phases should be between 1 and NPHMX");
+  }
 
   // THE FOLLOWING REQUIRED FOR SEVERAL ROUTINES WITH 'do iph=iphbot,iphtop'
   iphbot = 1;
@@ -200,18 +207,18 @@ void EVPFFT::vpsc_input()
 
   ur0 >> ithermo; CLEAR_LINE(ur0);
   if (ithermo == 1) {
-    int num_crystals = 200000; // maximum number of crystals/grains
+    // the file has one line for each crystal/grain
+    int num_crystals = std::max(1, maxval(jgrain.pointer(), jgrain.size()));
     eth = MatrixTypeRealHost (3,3,num_crystals);
 
     ur0 >> filethermo; CLEAR_LINE(ur0);
     std::ifstream f49;
-    f49.open(filethermo);
-    check_that_file_is_open(f49, filethermo.c_str());
+    open_input_file(f49, filethermo);
 
     for (int ig = 1; ig <= num_crystals; ig++) {
       f49 >> eth(1,1,ig) >> eth(2,2,ig)
           >> eth(3,3,ig) >> eth(2,3,ig)
-          >> eth(3,1,ig) >> eth(1,2,ig); CLEAR_LINE(ur0);
+          >> eth(3,1,ig) >> eth(1,2,ig); CLEAR_LINE(f49);
 
       eth(3,2,ig) = eth(2,3,ig);
       eth(1,3,ig) = eth(3,1,ig);
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/data_crystal.cpp b/apps/micromechanics/LSNP-EVPFFT/src/data_crystal.cpp
index ab38313..2b5eae1 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/data_crystal.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/data_crystal.cpp
@@ -1,4 +1,6 @@
 #include <iostream>
+#include <algorithm>
+#include <cmath>
 
 #include "evpfft.h"
 #include "definitions.h"
@@ -10,13 +12,11 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
 {
 
   std::ifstream ur1;
-  ur1.open(filecryspl);
-  check_that_file_is_open(ur1, filecryspl.c_str());
+  open_input_file(ur1, filecryspl);
   std::string prosa;
 
   MatrixTypeIntHost isn(NSYSMX,4);
   MatrixTypeIntHost isb(NSYSMX,4);
-  MatrixTypeIntHost mode(10);
   MatrixTypeRealHost sn(3);
   MatrixTypeRealHost sb(3);
   MatrixTypeRealHost cdim(3);
@@ -24,8 +24,6 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
   MatrixTypeRealHost aux33(3,3);
   MatrixTypeRealHost aux55(5,5);
   MatrixTypeRealHost aux3333(3,3,3,3);
-  MatrixTypeRealHost hselfx(10);
-  MatrixTypeRealHost hlatex(10,10);
   int nmodesx,kount,nm,modex,nsmx,nrsx;
   int isectwx,nsysx;
   real_t covera,gamd0x,twshx,tau0xf,tau0xb,tau1x,thet0x,thet1x;
@@ -41,9 +39,18 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
 
   ur1 >> nmodesx; CLEAR_LINE(ur1);
   ur1 >> nmodes(iph); CLEAR_LINE(ur1);
+  if (nmodes(iph) < 0 || nmodes(iph) > nmodesx || nmodes(iph) > NMODMX) {
+    throw std::runtime_error(filecryspl + ": the number of active modes is larger than the number of modes or NMODMX");
+  }
+  MatrixTypeIntHost mode(std::max(1,nmodesx));
+  MatrixTypeRealHost hselfx(std::max(1,nmodesx));
+  MatrixTypeRealHost hlatex(std::max(1,nmodesx),std::max(1,nmodesx));
   for (int i = 1; i <= mode.size(); i++) mode(i) = 0;
   for (int i = 1; i <= nmodes(iph); i++) {
     ur1 >> mode(i);
+    if (mode(i) < 1 || mode(i) > nmodesx) {
+      throw std::runtime_error(filecryspl + ": there is no mode " + std::to_string(mode(i)));
+    }
   }
   CLEAR_LINE(ur1);
 
@@ -79,7 +86,7 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
       thet1x *= stress_scale;
 
       //     SKIPS nsmx LINES IF THE MODE IS NOT IN THE LIST.
-      if (modex != mode(kount)) {
+      if (kount > nmodes(iph) || modex != mode(kount)) {
         for (int iz = 1; iz <= nsmx; iz++) {
           CLEAR_LINE(ur1);
         } 
@@ -106,6 +113,10 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
         hlatex(kount,i) = hlatex(nm,mode(i));
       }
 
+      if (nsmx < 0 || nsyst.host(iph) + nsmx > NSYSMX) {
+        throw std::runtime_error(filecryspl + ": the number of systems of the active modes is larger than NSYSMX");
+      }
+
       // SYSTEMS GIVEN IN FOUR INDEX NOTATION: HEXAGONALS AND TRIGONALS
       // SYSTEMS GIVEN IN THREE INDEX NOTATION: CUBIC AND ORTHORHOMBIC
       if (icryst(iph).substr(0,3) == "HEX" || icryst(iph).substr(0,3) == "TRI" ||
@@ -198,7 +209,7 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
           prod += dnca.host(j,nsysx,iph) * dbca.host(j,nsysx,iph);
         }
 
-        if (prod >= 1.0e-3) {
+        if (fabs(prod) >= 1.0e-3) {
           printf("SYSTEM %d IN MODE %d IN PHASE %d IS NOT ORTHOGONAL !!\n", js, nm, iph);
           printf("%d %d %d", isb(js,1), isb(js,2), isb(js,3));
           printf("%d %d %d", isn(js,1), isn(js,2), isn(js,3));
@@ -259,6 +270,11 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
   //} // end of label_100 scope
   } // end for (nm)
 
+  if (kount != nmodes(iph) + 1) {
+    throw std::runtime_error(filecryspl + ": mode " + std::to_string(mode(kount)) +
+                             " is not there or is not listed in the order of the file");
+  }
+
   //     INITIALIZE SELF & LATENT HARDENING COEFS FOR EACH SYSTEM OF THE PHASE.
   //     ABSOLUTE UNITS ARE ACCOUNTED FOR BY MODULATING FACTOR IN HARDENING LAW.
 
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/data_crystal_elast.cpp b/apps/micromechanics/LSNP-EVPFFT/src/data_crystal_elast.cpp
index 8431baa..93def39 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/data_crystal_elast.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/data_crystal_elast.cpp
@@ -9,8 +9,7 @@ using namespace utils;
 void EVPFFT::data_crystal_elast(int iph, const std::string & filecrysel)
 {
   std::ifstream ur1;
-  ur1.open(filecrysel);
-  check_that_file_is_open(ur1, filecrysel.c_str());
+  open_input_file(ur1, filecrysel);
 
   MatrixTypeRealHost dde(3,3);
   MatrixTypeRealHost xid4(3,3,3,3);
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp b/apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp
index 3a57534..9b24864 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp
@@ -9,7 +9,7 @@
 
 using namespace utils;
 
-int get_dataset_rank(hid_t hdf5_file_id, const char *dataset_name);
+int get_dataset_rank(hid_t hdf5_file_id, const char *dataset_name, const int *array_dims);
 
 void EVPFFT::data_grain(const std::string & filetext)
 {
@@ -65,6 +65,11 @@ void EVPFFT::data_grain(const std::string & filetext)
       om  = om_array(ii,jj,kk);
       jph = jphase.host(ii,jj,kk);
 
+      if (jph < 1 || jph > nph) {
+        throw std::runtime_error("a voxel of " + filetext + " has phase " + std::to_string(jph) +
+                                 ", which is not one of the phases of the input file");
+      }
+
       if (jph == 1) nph1 = nph1 + 1;
       if (igas.host(jph) == 1) continue; // nothing needs to be done if gas phase
            
@@ -181,8 +186,7 @@ void EVPFFT::data_grain(const std::string & filetext)
 void EVPFFT::read_classic_los_alamos_texture_file(const std::string & filetext)
 {
   std::ifstream ur2;
-  ur2.open(filetext);
-  check_that_file_is_open(ur2, filetext.c_str());
+  open_input_file(ur2, filetext);
 
   real_t ph, th, om;
   int iiii, jjjj, kkkk, jgr, jph;
@@ -192,6 +196,7 @@ void EVPFFT::read_classic_los_alamos_texture_file(const std::string & filetext)
     for (int jj = 1; jj <= npts2; jj++) {
       for (int ii = 1; ii <= npts1; ii++) {
         iframe.host(ii,jj,kk) = 1;
+        jgrain(ii,jj,kk) = 0;
       }
     }
   }
@@ -234,15 +239,6 @@ void EVPFFT::read_hdf5_texture_file(const std::string & filetext)
   // open hdf5 file
   hid_t hdf5_file_id = open_hdf5_file(filetext.c_str(), mpi_comm);
  
-  // get all dataset ranks
-  int EulerAnglesRank = get_dataset_rank(hdf5_file_id, cmd.EulerAnglesFullPath.c_str());
-  int FeatureIdsRank = get_dataset_rank(hdf5_file_id, cmd.FeatureIdsFullPath.c_str());
-  int PhaseIdsRank = get_dataset_rank(hdf5_file_id, cmd.PhaseIdsFullPath.c_str());
-
-  if (EulerAnglesRank != 4) {
-    throw std::runtime_error("EulerAngles should be stored as rank 4 array in hdf5 file");
-  }
-    
   // set dims and others
   // Note that hdf5 is stored in C layout, and when read from a c or c++ program
   // it reads in c-array-order but when read from fortran it reads in fortran-array-layout.
@@ -254,6 +250,15 @@ void EVPFFT::read_hdf5_texture_file(const std::string & filetext)
   int EulerAngles_local_array_dims[4] = {npts3,npts2,npts1,3};
   int start_coordinates[4] = {local_start3,local_start2,local_start1,0};
   int stride[4] = {1,1,1,1};
+
+  // get all dataset ranks
+  int EulerAnglesRank = get_dataset_rank(hdf5_file_id, cmd.EulerAnglesFullPath.c_str(), EulerAngles_global_array_dims);
+  int FeatureIdsRank = get_dataset_rank(hdf5_file_id, cmd.FeatureIdsFullPath.c_str(), global_array_dims);
+  int PhaseIdsRank = get_dataset_rank(hdf5_file_id, cmd.PhaseIdsFullPath.c_str(), global_array_dims);
+
+  if (EulerAnglesRank != 4) {
+    throw std::runtime_error("EulerAngles should be stored as rank 4 array in hdf5 file");
+  }
   
   // create filespace, memspace
   hid_t FeatureIds_filespace = create_hdf5_filespace(FeatureIdsRank, global_array_dims, local_array_dims,
@@ -320,21 +325,33 @@ void EVPFFT::read_hdf5_texture_file(const std::string & filetext)
   H5Fclose(hdf5_file_id);
 }
 
-int get_dataset_rank(hid_t hdf5_file_id, const char *dataset_name)
+// the dataset should have one entry for each voxel: array_dims, of which the last dimension may be left out
+int get_dataset_rank(hid_t hdf5_file_id, const char *dataset_name, const int *array_dims)
 {
   int dataset_rank;
-  hid_t dataset = H5Dopen2(hdf5_file_id, dataset_name, H5P_DEFAULT);
+  hid_t dataset = open_hdf5_dataset(dataset_name, hdf5_file_id);
   hid_t dataspace = H5Dget_space(dataset);
   dataset_rank = H5Sget_simple_extent_ndims(dataspace);
+  bool dims_match = (dataset_rank == 3 || dataset_rank == 4);
+  if (dims_match) {
+    hsize_t dims[4];
+    H5Sget_simple_extent_dims(dataspace, dims, NULL);
+    for (int i = 0; i < dataset_rank; i++) {
+      if (dims[i] != (hsize_t)array_dims[i]) dims_match = false;
+    }
+  }
+  H5Sclose(dataspace);
   H5Dclose(dataset);
+  if (!dims_match) {
+    throw std::runtime_error(std::string(dataset_name) + " does not have the dimensions of the grid");
+  }
   return dataset_rank;
 }
 
 void EVPFFT::read_vtk_lattice_structure(const std::string & filetext)
 {
   std::ifstream ur2;
-  ur2.open(filetext);
-  check_that_file_is_open(ur2, filetext.c_str());
+  open_input_file(ur2, filetext);
 
   // Skip header lines
   std::string line;
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/definitions.h b/apps/micromechanics/LSNP-EVPFFT/src/definitions.h
index 015fc7e..fbd693c 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/definitions.h
+++ b/apps/micromechanics/LSNP-EVPFFT/src/definitions.h
@@ -79,7 +79,8 @@ using ViewMatrixTypeReal    = ViewFMatrixKokkos <real_t>;
 
 // Definitions for printing and file manipulation
 #define screenOut stdout
-#define CLEAR_LINE(ifstream) ( ifstream.ignore(std::numeric_limits<std::streamsize>::max(), '\n') );
+// the last line of a file may end without a newline
+#define CLEAR_LINE(ifstream) if (!ifstream.eof()) { ifstream.ignore(std::numeric_limits<std::streamsize>::max(), '\n'); }
 #define FULL_INPUT_PATH(filename) ( _INPUT_DIR filename )
 #define FULL_OUTPUT_PATH(filename) ( _OUTPUT_DIR filename )
 
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/utilities.cpp b/apps/micromechanics/LSNP-EVPFFT/src/utilities.cpp
index d59b265..8370da0 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/utilities.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/utilities.cpp
@@ -25,6 +25,13 @@ void check_that_file_is_open(const std::ifstream & filestream, const char* filen
   }
 }
 
+void open_input_file(std::ifstream & filestream, const std::string & filename)
+{
+  filestream.open(filename);
+  check_that_file_is_open(filestream, filename.c_str());
+  filestream.exceptions(std::ifstream::failbit | std::ifstream::badbit);
+}
+
 void check_that_file_is_open(FILE *file_ptr, const char* filename)
 {
   if (file_ptr == NULL)
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/utilities.h b/apps/micromechanics/LSNP-EVPFFT/src/utilities.h
index 34956b8..d5fc06e 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/utilities.h
+++ b/apps/micromechanics/LSNP-EVPFFT/src/utilities.h
@@ -2,6 +2,7 @@
 #include "definitions.h"
 #include <fstream>
 #include <iomanip>
+#include <string>
 #include "mpi.h"
 
 using namespace utils;
@@ -14,6 +15,9 @@ int get_mpi_comm_size(const MPI_Comm mpi_comm);
 void check_that_file_is_open(const std::ifstream & filestream, const char* filename);
 void check_that_file_is_open(FILE *file_ptr, const char* filename);
 
+// opens an input file; anything that can not be read from it throws
+void open_input_file(std::ifstream & filestream, const std::string & filename);
+
 // minval
 template <typename T>
 T minval(T *ptr, int N);
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/vpsc_input.cpp b/apps/micromechanics/LSNP-EVPFFT/src/vpsc_input.cpp
index 9df34b1..ddd94a9 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/vpsc_input.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/vpsc_input.cpp
@@ -15,6 +15,7 @@
 
 
 #include <iostream>
+#include <algorithm>
 #include <stdio.h>
 #include <assert.h>
 #include <fstream>
@@ -48,16 +49,22 @@ void EVPFFT::vpsc_input()
 
 // *********   INITIALIZATION BLOCK   ***************************
   
-  ur0.open(cmd.input_filename);
-  check_that_file_is_open(ur0, cmd.input_filename.c_str());
+  open_input_file(ur0, cmd.input_filename);
 
   ur0 >> NPHMX >> NMODMX >> NTWMMX >> NSYSMX; CLEAR_LINE(ur0);
   ur0 >> npts1_g >> npts2_g >> npts3_g; CLEAR_LINE(ur0);
   ur0 >> dnpts1_g >> dnpts2_g >> dnpts3_g; CLEAR_LINE(ur0);
 
+  if (NPHMX < 1 || npts1_g < 1 || npts2_g < 1 || npts3_g < 1) {
+    throw std::runtime_error("NPHMX and the grid sizes in " + cmd.input_filename + " should be at least 1");
+  }
+
   allocate_memory();
 
   ur0 >> nph; CLEAR_LINE(ur0);
+  if (nph < 1 || nph > NPHMX) {
+    throw std::runtime_error("the number of phases should be between 1 and NPHMX");
+  }
 
   // THE FOLLOWING REQUIRED FOR SEVERAL ROUTINES WITH 'do iph=iphbot,iphtop'
   iphbot = 1;
@@ -220,18 +227,18 @@ void EVPFFT::vpsc_input()
 
   ur0 >> ithermo; CLEAR_LINE(ur0);
   if (ithermo == 1) {
-    int num_crystals = 200000; // maximum number of crystals/grains
+    // the file has one line for each crystal/grain
+    int num_crystals = std::max(1, maxval(jgrain.pointer(), jgrain.size()));
     eth = MatrixTypeRealHost (3,3,num_crystals);
 
     ur0 >> filethermo; CLEAR_LINE(ur0);
     std::ifstream f49;
-    f49.open(filethermo);
-    check_that_file_is_open(f49, filethermo.c_str());
+    open_input_file(f49, filethermo);
 
     for (int ig = 1; ig <= num_crystals; ig++) {
       f49 >> eth(1,1,ig) >> eth(2,2,ig)
           >> eth(3,3,ig) >> eth(2,3,ig)
-          >> eth(3,1,ig) >> eth(1,2,ig); CLEAR_LINE(ur0);
+          >> eth(3,1,ig) >> eth(1,2,ig); CLEAR_LINE(f49);
 
       eth(3,2,ig) = eth(2,3,ig);
       eth(1,3,ig) = eth(3,1,ig);
-- 
2.43.0


From 49d488d4c8a47b23a7e6070c3a292f6c11944494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:14 +0000
Subject: [PATCH 75/81] fix: EVPFFT counts the macroscopic rotation of the
 lattice once

---
 apps/micromechanics/EVPFFT/src/update_orient.cpp       | 2 +-
 apps/micromechanics/LS-EVPFFT-J2/src/update_orient.cpp | 2 +-
 apps/micromechanics/LS-EVPFFT/src/update_orient.cpp    | 2 +-
 apps/micromechanics/LSNP-EVPFFT/src/update_orient.cpp  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/update_orient.cpp b/apps/micromechanics/EVPFFT/src/update_orient.cpp
index 426e51c..b4fbbb0 100644
--- a/apps/micromechanics/EVPFFT/src/update_orient.cpp
+++ b/apps/micromechanics/EVPFFT/src/update_orient.cpp
@@ -97,7 +97,7 @@ void EVPFFT::update_orient()
 //
       for (int ii = 1; ii <= 3; ii++) {
         for (int jj = 1; jj <= 3; jj++) {
-          rot(ii,jj) = (tomtot(ii,jj)+rotloc(ii,jj)-rotslip(ii,jj)) * tdot;
+          rot(ii,jj) = (rotloc(ii,jj)-rotslip(ii,jj)) * tdot;
         }
       }
 
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/update_orient.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/update_orient.cpp
index 644935f..14c2a09 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/update_orient.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/update_orient.cpp
@@ -97,7 +97,7 @@ void EVPFFT::update_orient()
 //
       for (int ii = 1; ii <= 3; ii++) {
         for (int jj = 1; jj <= 3; jj++) {
-          rot(ii,jj) = (tomtot(ii,jj)+rotloc(ii,jj)-rotslip(ii,jj)) * tdot;
+          rot(ii,jj) = (rotloc(ii,jj)-rotslip(ii,jj)) * tdot;
         }
       }
 
diff --git a/apps/micromechanics/LS-EVPFFT/src/update_orient.cpp b/apps/micromechanics/LS-EVPFFT/src/update_orient.cpp
index 644935f..14c2a09 100644
--- a/apps/micromechanics/LS-EVPFFT/src/update_orient.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/update_orient.cpp
@@ -97,7 +97,7 @@ void EVPFFT::update_orient()
 //
       for (int ii = 1; ii <= 3; ii++) {
         for (int jj = 1; jj <= 3; jj++) {
-          rot(ii,jj) = (tomtot(ii,jj)+rotloc(ii,jj)-rotslip(ii,jj)) * tdot;
+          rot(ii,jj) = (rotloc(ii,jj)-rotslip(ii,jj)) * tdot;
         }
       }
 
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/update_orient.cpp b/apps/micromechanics/LSNP-EVPFFT/src/update_orient.cpp
index 644935f..14c2a09 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/update_orient.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/update_orient.cpp
@@ -97,7 +97,7 @@ void EVPFFT::update_orient()
 //
       for (int ii = 1; ii <= 3; ii++) {
         for (int jj = 1; jj <= 3; jj++) {
-          rot(ii,jj) = (tomtot(ii,jj)+rotloc(ii,jj)-rotslip(ii,jj)) * tdot;
+          rot(ii,jj) = (rotloc(ii,jj)-rotslip(ii,jj)) * tdot;
         }
       }
 
-- 
2.43.0


From bc15f3b2abd12998cbcc1f170715481a586c2f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:14 +0000
Subject: [PATCH 76/81] fix: the large-strain programs keep the macroscopic
 velocity gradient they have solved for

---
 apps/micromechanics/LS-EVPFFT/src/step.cpp   | 5 ++++-
 apps/micromechanics/LSNP-EVPFFT/src/step.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/apps/micromechanics/LS-EVPFFT/src/step.cpp b/apps/micromechanics/LS-EVPFFT/src/step.cpp
index de1b32c..1797f9e 100644
--- a/apps/micromechanics/LS-EVPFFT/src/step.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/step.cpp
@@ -27,7 +27,10 @@ void EVPFFT::step_set_dvelgradmacro_and_dvelgradmacroacum_to_zero()
   for (int j = 1; j <= 3; j++) {
     for (int i = 1; i <= 3; i++) {
       dvelgradmacro(i,j) = 0.0;
-      dvelgradmacroacum(i,j)  = 0.0;
+      // after the first step velgrad keeps the average it had, with the corrections in it
+      if (imicro == 1) {
+        dvelgradmacroacum(i,j)  = 0.0;
+      }
     }
   }
 }
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/step.cpp b/apps/micromechanics/LSNP-EVPFFT/src/step.cpp
index 3de41ae..b4d579c 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/step.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/step.cpp
@@ -46,7 +46,10 @@ void EVPFFT::step_set_dvelgradmacro_and_dvelgradmacroacum_to_zero()
   for (int j = 1; j <= 3; j++) {
     for (int i = 1; i <= 3; i++) {
       dvelgradmacro(i,j) = 0.0;
-      dvelgradmacroacum(i,j)  = 0.0;
+      // after the first step velgrad keeps the average it had, with the corrections in it
+      if (imicro == 1) {
+        dvelgradmacroacum(i,j)  = 0.0;
+      }
     }
   }
 }
-- 
2.43.0


From 0a0ad069dcb110a09cf5cdf72b006968201ec569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:14 +0000
Subject: [PATCH 77/81] fix: str_str.out of the large-strain programs reports
 the velocity gradient that was applied

---
 .../micromechanics/LS-EVPFFT-J2/src/write_macro_state.cpp | 8 ++++----
 apps/micromechanics/LS-EVPFFT/src/write_macro_state.cpp   | 8 ++++----
 apps/micromechanics/LSNP-EVPFFT/src/write_macro_state.cpp | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/write_macro_state.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/write_macro_state.cpp
index ee13dc2..3c856f0 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/write_macro_state.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/write_macro_state.cpp
@@ -24,8 +24,8 @@ void EVPFFT::write_macro_state()
             scauav(2,3),scauav(1,3),scauav(1,2),
             epav(1,1),epav(2,2),epav(3,3),
             epav(2,3),epav(1,3),epav(1,2),
-            velgradmacro.host(1,1),velgradmacro.host(2,2),velgradmacro.host(3,3),
-            velgradmacro.host(2,3),velgradmacro.host(1,3),velgradmacro.host(1,2),
+            velgradmacroactual(1,1),velgradmacroactual(2,2),velgradmacroactual(3,3),
+            velgradmacroactual(2,3),velgradmacroactual(1,3),velgradmacroactual(1,2),
             edotpav(1,1),edotpav(2,2),edotpav(3,3),
             edotpav(2,3),edotpav(1,3),edotpav(1,2),
             evm,evmp,dvm,dvmp,svm);
@@ -46,8 +46,8 @@ void EVPFFT::write_macro_state()
             "%011.4e,%011.4e,%011.4e,%011.4e,%011.4e,%011.4e,",
             epav(1,1),epav(2,2),epav(3,3),
             epav(2,3),epav(1,3),epav(1,2),
-            velgradmacro.host(1,1),velgradmacro.host(2,2),velgradmacro.host(3,3),
-            velgradmacro.host(2,3),velgradmacro.host(1,3),velgradmacro.host(1,2) );
+            velgradmacroactual(1,1),velgradmacroactual(2,2),velgradmacroactual(3,3),
+            velgradmacroactual(2,3),velgradmacroactual(1,3),velgradmacroactual(1,2) );
 
     fprintf(ofile_mgr.str_str_file.get(),
             "%011.4e,%011.4e,%011.4e,%011.4e,%011.4e,%011.4e,"
diff --git a/apps/micromechanics/LS-EVPFFT/src/write_macro_state.cpp b/apps/micromechanics/LS-EVPFFT/src/write_macro_state.cpp
index ee13dc2..3c856f0 100644
--- a/apps/micromechanics/LS-EVPFFT/src/write_macro_state.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/write_macro_state.cpp
@@ -24,8 +24,8 @@ void EVPFFT::write_macro_state()
             scauav(2,3),scauav(1,3),scauav(1,2),
             epav(1,1),epav(2,2),epav(3,3),
             epav(2,3),epav(1,3),epav(1,2),
-            velgradmacro.host(1,1),velgradmacro.host(2,2),velgradmacro.host(3,3),
-            velgradmacro.host(2,3),velgradmacro.host(1,3),velgradmacro.host(1,2),
+            velgradmacroactual(1,1),velgradmacroactual(2,2),velgradmacroactual(3,3),
+            velgradmacroactual(2,3),velgradmacroactual(1,3),velgradmacroactual(1,2),
             edotpav(1,1),edotpav(2,2),edotpav(3,3),
             edotpav(2,3),edotpav(1,3),edotpav(1,2),
             evm,evmp,dvm,dvmp,svm);
@@ -46,8 +46,8 @@ void EVPFFT::write_macro_state()
             "%011.4e,%011.4e,%011.4e,%011.4e,%011.4e,%011.4e,",
             epav(1,1),epav(2,2),epav(3,3),
             epav(2,3),epav(1,3),epav(1,2),
-            velgradmacro.host(1,1),velgradmacro.host(2,2),velgradmacro.host(3,3),
-            velgradmacro.host(2,3),velgradmacro.host(1,3),velgradmacro.host(1,2) );
+            velgradmacroactual(1,1),velgradmacroactual(2,2),velgradmacroactual(3,3),
+            velgradmacroactual(2,3),velgradmacroactual(1,3),velgradmacroactual(1,2) );
 
     fprintf(ofile_mgr.str_str_file.get(),
             "%011.4e,%011.4e,%011.4e,%011.4e,%011.4e,%011.4e,"
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/write_macro_state.cpp b/apps/micromechanics/LSNP-EVPFFT/src/write_macro_state.cpp
index ee13dc2..3c856f0 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/write_macro_state.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/write_macro_state.cpp
@@ -24,8 +24,8 @@ void EVPFFT::write_macro_state()
             scauav(2,3),scauav(1,3),scauav(1,2),
             epav(1,1),epav(2,2),epav(3,3),
             epav(2,3),epav(1,3),epav(1,2),
-            velgradmacro.host(1,1),velgradmacro.host(2,2),velgradmacro.host(3,3),
-            velgradmacro.host(2,3),velgradmacro.host(1,3),velgradmacro.host(1,2),
+            velgradmacroactual(1,1),velgradmacroactual(2,2),velgradmacroactual(3,3),
+            velgradmacroactual(2,3),velgradmacroactual(1,3),velgradmacroactual(1,2),
             edotpav(1,1),edotpav(2,2),edotpav(3,3),
             edotpav(2,3),edotpav(1,3),edotpav(1,2),
             evm,evmp,dvm,dvmp,svm);
@@ -46,8 +46,8 @@ void EVPFFT::write_macro_state()
             "%011.4e,%011.4e,%011.4e,%011.4e,%011.4e,%011.4e,",
             epav(1,1),epav(2,2),epav(3,3),
             epav(2,3),epav(1,3),epav(1,2),
-            velgradmacro.host(1,1),velgradmacro.host(2,2),velgradmacro.host(3,3),
-            velgradmacro.host(2,3),velgradmacro.host(1,3),velgradmacro.host(1,2) );
+            velgradmacroactual(1,1),velgradmacroactual(2,2),velgradmacroactual(3,3),
+            velgradmacroactual(2,3),velgradmacroactual(1,3),velgradmacroactual(1,2) );
 
     fprintf(ofile_mgr.str_str_file.get(),
             "%011.4e,%011.4e,%011.4e,%011.4e,%011.4e,%011.4e,"
-- 
2.43.0


From 45aa3d5ea9ac15c28a76b61aed953003b45026e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:14 +0000
Subject: [PATCH 78/81] fix: tex.out of the large-strain programs reports the
 rotated lattice

---
 .../LS-EVPFFT-J2/src/write_texture.cpp         | 18 +++++++++++++++++-
 .../LS-EVPFFT/src/write_texture.cpp            | 18 +++++++++++++++++-
 .../LSNP-EVPFFT/src/write_texture.cpp          | 18 +++++++++++++++++-
 3 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/write_texture.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/write_texture.cpp
index 7e6e784..70f42d8 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/write_texture.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/write_texture.cpp
@@ -1,5 +1,6 @@
 #include "evpfft.h"
 #include "euler.h"
+#include "defgrad_dcmp.h"
 #include <memory>
 #include <vector>
 #include "Profiler.h"
@@ -12,8 +13,12 @@ void EVPFFT::write_texture()
   const int n_rec = 8;
 
   ag.update_host();
+  defgrade.update_host();
 
   MatrixTypeRealHost aux33(3,3);
+  MatrixTypeRealHost fe(3,3);
+  MatrixTypeRealHost ve(3,3);
+  MatrixTypeRealHost re(3,3);
   MatrixTypeRealHost fbar(3,3);
   real_t ph, th, om, one;
 
@@ -60,9 +65,20 @@ void EVPFFT::write_texture()
       for (int j = 1; j <= npts2; j++) {
         for (int i = 1; i <= npts1; i++) {
 
+          // ag is the initial orientation, the rotation of the lattice is in defgrade
           for (int jj = 1; jj <= 3; jj++) {
             for (int ii = 1; ii <= 3; ii++) {
-              aux33(ii,jj) = ag.host(jj,ii,i,j,k);
+              fe(ii,jj) = defgrade.host(ii,jj,i,j,k);
+            }
+          }
+          defgrad_dcmp(fe.pointer(), ve.pointer(), re.pointer());
+
+          for (int jj = 1; jj <= 3; jj++) {
+            for (int ii = 1; ii <= 3; ii++) {
+              aux33(ii,jj) = 0.0;
+              for (int kk = 1; kk <= 3; kk++) {
+                aux33(ii,jj) += re(jj,kk) * ag.host(kk,ii,i,j,k);
+              }
             }
           }
 
diff --git a/apps/micromechanics/LS-EVPFFT/src/write_texture.cpp b/apps/micromechanics/LS-EVPFFT/src/write_texture.cpp
index 7e6e784..70f42d8 100644
--- a/apps/micromechanics/LS-EVPFFT/src/write_texture.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/write_texture.cpp
@@ -1,5 +1,6 @@
 #include "evpfft.h"
 #include "euler.h"
+#include "defgrad_dcmp.h"
 #include <memory>
 #include <vector>
 #include "Profiler.h"
@@ -12,8 +13,12 @@ void EVPFFT::write_texture()
   const int n_rec = 8;
 
   ag.update_host();
+  defgrade.update_host();
 
   MatrixTypeRealHost aux33(3,3);
+  MatrixTypeRealHost fe(3,3);
+  MatrixTypeRealHost ve(3,3);
+  MatrixTypeRealHost re(3,3);
   MatrixTypeRealHost fbar(3,3);
   real_t ph, th, om, one;
 
@@ -60,9 +65,20 @@ void EVPFFT::write_texture()
       for (int j = 1; j <= npts2; j++) {
         for (int i = 1; i <= npts1; i++) {
 
+          // ag is the initial orientation, the rotation of the lattice is in defgrade
           for (int jj = 1; jj <= 3; jj++) {
             for (int ii = 1; ii <= 3; ii++) {
-              aux33(ii,jj) = ag.host(jj,ii,i,j,k);
+              fe(ii,jj) = defgrade.host(ii,jj,i,j,k);
+            }
+          }
+          defgrad_dcmp(fe.pointer(), ve.pointer(), re.pointer());
+
+          for (int jj = 1; jj <= 3; jj++) {
+            for (int ii = 1; ii <= 3; ii++) {
+              aux33(ii,jj) = 0.0;
+              for (int kk = 1; kk <= 3; kk++) {
+                aux33(ii,jj) += re(jj,kk) * ag.host(kk,ii,i,j,k);
+              }
             }
           }
 
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/write_texture.cpp b/apps/micromechanics/LSNP-EVPFFT/src/write_texture.cpp
index 66ba986..07ebdc5 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/write_texture.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/write_texture.cpp
@@ -1,5 +1,6 @@
 #include "evpfft.h"
 #include "euler.h"
+#include "defgrad_dcmp.h"
 #include <memory>
 #include <vector>
 #include "Profiler.h"
@@ -12,8 +13,12 @@ void EVPFFT::write_texture()
   const int n_rec = 8;
 
   ag.update_host();
+  defgrade.update_host();
 
   MatrixTypeRealHost aux33(3,3);
+  MatrixTypeRealHost fe(3,3);
+  MatrixTypeRealHost ve(3,3);
+  MatrixTypeRealHost re(3,3);
   MatrixTypeRealHost fbar(3,3);
   real_t ph, th, om, one;
 
@@ -61,9 +66,20 @@ void EVPFFT::write_texture()
         for (int i = 1; i <= npts1; i++) {
           if (iframe.host(i,j,k) != 0) continue;
 
+          // ag is the initial orientation, the rotation of the lattice is in defgrade
           for (int jj = 1; jj <= 3; jj++) {
             for (int ii = 1; ii <= 3; ii++) {
-              aux33(ii,jj) = ag.host(jj,ii,i,j,k);
+              fe(ii,jj) = defgrade.host(ii,jj,i,j,k);
+            }
+          }
+          defgrad_dcmp(fe.pointer(), ve.pointer(), re.pointer());
+
+          for (int jj = 1; jj <= 3; jj++) {
+            for (int ii = 1; ii <= 3; ii++) {
+              aux33(ii,jj) = 0.0;
+              for (int kk = 1; kk <= 3; kk++) {
+                aux33(ii,jj) += re(jj,kk) * ag.host(kk,ii,i,j,k);
+              }
             }
           }
 
-- 
2.43.0


From 71e9f92b071eeea5b03f6748f584fe8ccfd03b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:15 +0000
Subject: [PATCH 79/81] fix: the orientation colours are those of the lattice
 orientation

---
 apps/micromechanics/EVPFFT/src/write_micro_state.cpp      | 5 ++++-
 apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp   | 5 ++++-
 apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/write_micro_state.cpp b/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
index 6a7e002..2bbf6bb 100644
--- a/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
+++ b/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
@@ -235,10 +235,13 @@ void calc_IPF_colors(
 
       for (int ii = 1; ii <= 3; ii++) {
         for (int jj = 1; jj <= 3; jj++) {
-          aa(ii,jj) = ag(ii,jj,i,j,k);
+          aa(ii,jj) = ag(jj,ii,i,j,k);
         }
       }
       euler(1, eulers(1), eulers(2), eulers(3), aa.pointer());
+      for (int ii = 1; ii <= 3; ii++) {
+        eulers(ii) = eulers(ii) * pi / 180.0;
+      }
   
       double hkl[3]; //set reference direction for IPF
       hkl[0] = 0.;
diff --git a/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp b/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
index ee421d9..47e1666 100644
--- a/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
@@ -256,11 +256,14 @@ void calc_IPF_colors(
         for (int jj = 1; jj <= 3; jj++) {
           aa(ii,jj) = 0.0;
           for (int kk = 1; kk <= 3; kk++) {
-            aa(ii,jj) =+ ag(ii,kk,i,j,k) * R(kk,jj);
+            aa(ii,jj) += R(jj,kk) * ag(kk,ii,i,j,k);
           }
         }
       }
       euler(1, eulers(1), eulers(2), eulers(3), aa.pointer());
+      for (int ii = 1; ii <= 3; ii++) {
+        eulers(ii) = eulers(ii) * pi / 180.0;
+      }
   
       double hkl[3]; //set reference direction for IPF
       hkl[0] = 0.;
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp b/apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp
index e668970..ffab730 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp
@@ -270,11 +270,14 @@ void calc_IPF_colors(
         for (int jj = 1; jj <= 3; jj++) {
           aa(ii,jj) = 0.0;
           for (int kk = 1; kk <= 3; kk++) {
-            aa(ii,jj) =+ ag(ii,kk,i,j,k) * R(kk,jj);
+            aa(ii,jj) += R(jj,kk) * ag(kk,ii,i,j,k);
           }
         }
       }
       euler(1, eulers(1), eulers(2), eulers(3), aa.pointer());
+      for (int ii = 1; ii <= 3; ii++) {
+        eulers(ii) = eulers(ii) * pi / 180.0;
+      }
   
       double hkl[3]; //set reference direction for IPF
       hkl[0] = 0.;
-- 
2.43.0


From 20395af5c7724b851c3e1f3441518f0935dc9099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:15 +0000
Subject: [PATCH 80/81] fix: the Euler angles of an orientation are defined
 where rounding takes its cosine past one

---
 apps/micromechanics/EVPFFT/src/euler.cpp       | 2 +-
 apps/micromechanics/LS-EVPFFT-J2/src/euler.cpp | 2 +-
 apps/micromechanics/LS-EVPFFT/src/euler.cpp    | 2 +-
 apps/micromechanics/LSNP-EVPFFT/src/euler.cpp  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/euler.cpp b/apps/micromechanics/EVPFFT/src/euler.cpp
index 4752b56..71e39fd 100644
--- a/apps/micromechanics/EVPFFT/src/euler.cpp
+++ b/apps/micromechanics/EVPFFT/src/euler.cpp
@@ -13,7 +13,7 @@ void euler(int iopt, real_t &ph, real_t &th, real_t &tm, real_t *a_)
   //  ph,th,om ARE THE EULER ANGLES OF ca REFERRED TO sa.
 
   if (iopt == 1) {
-    th = ACOS(a(3,3));
+    th = ACOS(fmax(-1.0,fmin(1.0,a(3,3))));
     if(ABS(a(3,3)) >= 0.9999) {
       tm = 0.0;
       ph = ATAN2(a(1,2),a(1,1));
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/euler.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/euler.cpp
index 4752b56..71e39fd 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/euler.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/euler.cpp
@@ -13,7 +13,7 @@ void euler(int iopt, real_t &ph, real_t &th, real_t &tm, real_t *a_)
   //  ph,th,om ARE THE EULER ANGLES OF ca REFERRED TO sa.
 
   if (iopt == 1) {
-    th = ACOS(a(3,3));
+    th = ACOS(fmax(-1.0,fmin(1.0,a(3,3))));
     if(ABS(a(3,3)) >= 0.9999) {
       tm = 0.0;
       ph = ATAN2(a(1,2),a(1,1));
diff --git a/apps/micromechanics/LS-EVPFFT/src/euler.cpp b/apps/micromechanics/LS-EVPFFT/src/euler.cpp
index 4752b56..71e39fd 100644
--- a/apps/micromechanics/LS-EVPFFT/src/euler.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/euler.cpp
@@ -13,7 +13,7 @@ void euler(int iopt, real_t &ph, real_t &th, real_t &tm, real_t *a_)
   //  ph,th,om ARE THE EULER ANGLES OF ca REFERRED TO sa.
 
   if (iopt == 1) {
-    th = ACOS(a(3,3));
+    th = ACOS(fmax(-1.0,fmin(1.0,a(3,3))));
     if(ABS(a(3,3)) >= 0.9999) {
       tm = 0.0;
       ph = ATAN2(a(1,2),a(1,1));
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/euler.cpp b/apps/micromechanics/LSNP-EVPFFT/src/euler.cpp
index 4752b56..71e39fd 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/euler.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/euler.cpp
@@ -13,7 +13,7 @@ void euler(int iopt, real_t &ph, real_t &th, real_t &tm, real_t *a_)
   //  ph,th,om ARE THE EULER ANGLES OF ca REFERRED TO sa.
 
   if (iopt == 1) {
-    th = ACOS(a(3,3));
+    th = ACOS(fmax(-1.0,fmin(1.0,a(3,3))));
     if(ABS(a(3,3)) >= 0.9999) {
       tm = 0.0;
       ph = ATAN2(a(1,2),a(1,1));
-- 
2.43.0


From ef89ca7685a7bcf744479b0f3ba4f4089efd5b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:58 +0000
Subject: [PATCH 81/81] fix: a hook that overrides a virtual hook of a base
 class is run

---
 .../src/Yaml-Serializable/include/yaml-post-processing.h    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-post-processing.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-post-processing.h
index 9b01c82..81c6f80 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-post-processing.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-post-processing.h
@@ -93,10 +93,14 @@ namespace Yaml {
          * This works because typical comparison needs to cast the data to determine the correct
          * comparator to dispatch. However, we don't need any kind of fancy comparison. Just want to 
          * know if the pointers point to the same thing or not.
+         *
+         * Pointers to virtual functions hold a place in the virtual table, which is the same for the
+         * functions that override each other. Their types tell whose functions they are.
         */
         template<typename T, typename K>
         bool compare_bytes(T a, K b) {
-            return (sizeof(a) == sizeof(b))
+            return std::is_same<T, K>::value
+                && (sizeof(a) == sizeof(b))
                 && (memcmp(&a, &b, sizeof(a)) == 0);
         }
 
-- 
2.43.0

