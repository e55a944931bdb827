Q, S = "src/message_queue.cpp", "src/shared_memory.cpp"
K7, K8, K = ["C07"], ["C08"], ["C07", "C08"]
LOOP = """            for (int64_t i = 0; i < *pCurMsgNumber; i++) {
                msgDataTotalSize += *(pFirstMsgDataSize + i);
            }
"""
LOOPP = """        for (int64_t i = 0; i < *pCurMsgNumber; i++) {
            msgDataTotalSize += *(pFirstMsgDataSize + i);
        }

        // copy"""
FULL = "if (totalFree < dataSize || *pCurMsgNumber == msgMaxNumber_) {"
TAIL = "int64_t tailFree = totalFree - *pFrontFree;"
MOVE = "memmove(pFirstMsgData, pOldData, (size_t)msgDataTotalSize);"
SHIFT = "memmove(pFirstMsgDataSize, pFirstMsgDataSize + 1, (size_t)(sizeof(int64_t) * (*pCurMsgNumber)));"
COPY = "memcpy(pCopyBegin, data, (size_t)dataSize);"
OUT = "memcpy(buf, pCopyBegin, (size_t)written);"
PUSH2 = """        uint8_t* pCopyBegin = nullptr;
        if (tailFree >= dataSize) {
            *pCurMsgNumber += 1;

            // record data size
            *(pFirstMsgDataSize + (*pCurMsgNumber - 1)) = dataSize;

            pCopyBegin = pFirstMsgData + msgDataTotalSize + *pFrontFree;
        }
        else {
            *pCurMsgNumber += 1;

            // record data size
            *(pFirstMsgDataSize + (*pCurMsgNumber - 1)) = dataSize;

            // move old data to offset zero
            uint8_t* pOldData = pFirstMsgData + *pFrontFree;
            memmove(pFirstMsgData, pOldData, (size_t)msgDataTotalSize);

            // set front free to 0
            *pFrontFree = 0;

            pCopyBegin = pFirstMsgData + msgDataTotalSize;
        }
"""
M = [
 # ---- push
 ("seg-full-le", "bug", K, [(Q, FULL, "if (totalFree < dataSize) {")]),
 ("seg-full-off1", "bug", K, [(Q, FULL, "if (totalFree < dataSize || *pCurMsgNumber > msgMaxNumber_) {")]),
 ("seg-full-early", "bug", K8, [(Q, FULL, "if (totalFree <= dataSize || *pCurMsgNumber == msgMaxNumber_) {")]),
 ("seg-full-early2", "bug", K8, [(Q, FULL, "if (totalFree < dataSize || *pCurMsgNumber + 1 >= msgMaxNumber_) {")]),
 ("seg-full-tail", "bug", K8, [(Q, FULL, "if (tailFree < dataSize || *pCurMsgNumber == msgMaxNumber_) {")]),
 ("seg-tail-ignored", "bug", K7, [(Q, "if (tailFree >= dataSize) {", "if (totalFree >= dataSize) {")]),
 ("seg-tail-header", "bug", K7, [(Q, "int64_t totalFree = *pShmSize - msgSizeHeaderTotalSize - sizeof(int64_t) * 3 - msgDataTotalSize;\n        int64_t tailFree", "int64_t totalFree = *pShmSize - msgSizeHeaderTotalSize - sizeof(int64_t) * 2 - msgDataTotalSize;\n        int64_t tailFree")]),
 ("seg-tail-noheader", "bug", K7, [(Q, "int64_t totalFree = *pShmSize - msgSizeHeaderTotalSize - sizeof(int64_t) * 3 - msgDataTotalSize;\n        int64_t tailFree", "int64_t totalFree = *pShmSize - sizeof(int64_t) * 3 - msgDataTotalSize;\n        int64_t tailFree")]),
 ("seg-move-size", "bug", K, [(Q, MOVE, "memmove(pFirstMsgData, pOldData, (size_t)dataSize);")]),
 ("seg-move-cpy", "bug", K, [(Q, MOVE, "memcpy(pFirstMsgData, pOldData, (size_t)msgDataTotalSize);")]),
 ("seg-move-none", "bug", K, [(Q, "            " + MOVE + "\n", "")]),
 ("seg-move-front", "bug", K, [(Q, "            // set front free to 0\n            *pFrontFree = 0;\n", "")]),
 ("seg-move-dst", "bug", K, [(Q, "pCopyBegin = pFirstMsgData + msgDataTotalSize;\n", "pCopyBegin = pFirstMsgData + msgDataTotalSize + tailFree;\n")]),
 ("seg-copy-front", "bug", K, [(Q, "pCopyBegin = pFirstMsgData + msgDataTotalSize + *pFrontFree;", "pCopyBegin = pFirstMsgData + msgDataTotalSize;")]),
 ("seg-copy-len", "bug", K8, [(Q, COPY, "memcpy(pCopyBegin, data, (size_t)dataSize - 1);")]),
 ("seg-copy-len32", "bug", K8, [(Q, COPY, "memcpy(pCopyBegin, data, (uint32_t)dataSize);")]),
 ("seg-record-idx", "bug", K8, [(Q, ("*(pFirstMsgDataSize + (*pCurMsgNumber - 1)) = dataSize;", 1), "*(pFirstMsgDataSize + (*pCurMsgNumber)) = dataSize;")]),
 ("seg-record-order", "bug", K8, [(Q, PUSH2, PUSH2.replace("            *pCurMsgNumber += 1;\n\n            // record data size\n            *(pFirstMsgDataSize + (*pCurMsgNumber - 1)) = dataSize;\n\n            // move", "            *(pFirstMsgDataSize + (*pCurMsgNumber - 1)) = dataSize;\n            *pCurMsgNumber += 1;\n\n            // move"))]),
 ("seg-sum-skip", "bug", K, [(Q, (LOOP, 1), LOOP.replace("int64_t i = 0", "int64_t i = 1"))]),
 ("seg-sum-less", "bug", K, [(Q, (LOOP, 1), LOOP.replace("i < *pCurMsgNumber", "i < *pCurMsgNumber - 1"))]),
 ("seg-sum-max", "bug", K, [(Q, (LOOP, 1), LOOP.replace("i < *pCurMsgNumber", "i <= *pCurMsgNumber"))]),
 ("seg-fail-count", "bug", K8, [(Q, "            veigar::log(\"Veigar: Warning: Message queue is full. Please adjust the parameters of the message queue.\\n\");\n            break;\n        }\n\n        uint8_t* pCopyBegin", "            *pFrontFree = 0;\n            break;\n        }\n\n        uint8_t* pCopyBegin")]),
 ("seg-push-reset-empty", "bug", K, [(Q, TAIL, "if (*pCurMsgNumber <= 1) *pFrontFree = 0;\n        " + TAIL)]),
 # ---- pop
 ("seg-pop-front", "bug", K, [(Q, "*pFrontFree += *pFirstMsgDataSize;", "*pFrontFree += bufSize;")]),
 ("seg-pop-order", "bug", K, [(Q, "        // set front free\n        *pFrontFree += *pFirstMsgDataSize;\n\n", ""), (Q, SHIFT, SHIFT + "\n        *pFrontFree += *pFirstMsgDataSize;")]),
 ("seg-pop-shift-short", "bug", K8, [(Q, SHIFT, SHIFT.replace("(*pCurMsgNumber)", "(*pCurMsgNumber - 1)"))]),
 ("seg-pop-shift-cpy", "bug", K8, [(Q, SHIFT, SHIFT.replace("memmove", "memcpy"))]),
 ("seg-pop-shift-bytes", "bug", K8, [(Q, SHIFT, "memmove(pFirstMsgDataSize, pFirstMsgDataSize + 1, (size_t)(*pCurMsgNumber));")]),
 ("seg-pop-shift-max", "bug", K7, [(Q, SHIFT, SHIFT.replace("(*pCurMsgNumber)", "(msgMaxNumber_ + 100)"))]),
 ("seg-pop-cond", "bug", K8, [(Q, "if (*pFirstMsgDataSize > bufSize || !buf) {", "if (*pFirstMsgDataSize >= bufSize || !buf) {")]),
 ("seg-pop-cond2", "bug", K7, [(Q, "if (*pFirstMsgDataSize > bufSize || !buf) {", "if (!buf) {")]),
 ("seg-pop-cond3", "bug", K7, [(Q, "if (*pFirstMsgDataSize > bufSize || !buf) {", "if (*pFirstMsgDataSize > bufSize + 8 || !buf) {")]),
 ("seg-pop-empty", "bug", K8, [(Q, "if (*pCurMsgNumber <= 0) {", "if (*pCurMsgNumber < 0) {")]),
 ("seg-pop-written", "bug", K8, [(Q, "            written = *pFirstMsgDataSize;\n            break;", "            break;")]),
 ("seg-pop-consume", "bug", K8, [(Q, "            written = *pFirstMsgDataSize;\n            break;", "            written = *pFirstMsgDataSize;\n            *pCurMsgNumber -= 1;\n            break;")]),
 ("seg-pop-num", "bug", K8, [(Q, "        *pCurMsgNumber -= 1;\n", "")]),
 ("seg-pop-front0", "bug", K, [(Q, "uint8_t* pCopyBegin = pFirstMsgData + *pFrontFree;", "uint8_t* pCopyBegin = pFirstMsgData;")]),
 ("seg-pop-lifo", "bug", K8, [(Q, "uint8_t* pCopyBegin = pFirstMsgData + *pFrontFree;", "uint8_t* pCopyBegin = pFirstMsgData + *pFrontFree + msgDataTotalSize - *pFirstMsgDataSize;")]),
 ("seg-pop-len", "bug", K7, [(Q, OUT, "memcpy(buf, pCopyBegin, (size_t)bufSize);")]),
 ("seg-pop-total", "bug", K7, [(Q, OUT, "memcpy(buf, pCopyBegin, (size_t)msgDataTotalSize);")]),
 ("seg-pop-reset", "bug", K, [(Q, "*pFrontFree += *pFirstMsgDataSize;", "*pFrontFree = (*pCurMsgNumber <= 1) ? 0 : *pFrontFree + *pFirstMsgDataSize;")]),
 ("seg-pop-hdr", "bug", K, [(Q, "uint8_t* const pFirstMsgData = shmData + sizeof(int64_t) * 3 + msgSizeHeaderTotalSize;", "uint8_t* const pFirstMsgData = shmData + sizeof(int64_t) * 2 + msgSizeHeaderTotalSize;")]),
 # ---- space, number
 ("seg-space-num", "bug", K7, [(Q, "if (*pCurMsgNumber >= msgMaxNumber_) {", "if (*pCurMsgNumber > msgMaxNumber_) {")]),
 ("seg-space-none", "bug", K7, [(Q, "        if (totalFree < dataSize) {\n            break;\n        }\n", "")]),
 ("seg-space-early", "bug", K8, [(Q, "        if (totalFree < dataSize) {\n            break;\n", "        if (totalFree <= dataSize) {\n            break;\n")]),
 ("seg-space-frontfree", "bug", K8, [(Q, "        if (totalFree < dataSize) {\n            break;\n", "        if (totalFree - *pFrontFree < dataSize) {\n            break;\n")]),
 ("seg-space-never", "bug", K8, [(Q, "    if ((int64_t)msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {\n        waitable = false;", "    if (msgExpectedMaxSize_ < dataSize) {\n        waitable = false;")]),
 ("seg-number", "bug", K8, [(Q, "return *pCurMsgNumber;", "return *pCurMsgNumber - 1;")]),
 # ---- creation
 ("seg-create-notzero", "bug", K, [(Q, "        memset(data, 0, (size_t)shmSize);\n", "")]),
 ("seg-create-size", "bug", K, [(Q, "*pDataSize = shmSize;", "*pDataSize = shmSize + sizeof(int64_t);")]),
 ("seg-create-small", "bug", K7, [(Q, ("((int64_t)msgMaxNumber_ + 3)", 1), "((int64_t)msgMaxNumber_)")]),
 ("seg-create-memset", "bug", K7, [(Q, "memset(data, 0, (size_t)shmSize);", "memset(data, 0, (size_t)shmSize + 8);")]),
 ("seg-open-small", "bug", K7, [(Q, ("((int64_t)msgMaxNumber_ + 3)", 2), "((int64_t)msgMaxNumber_ + 2)")]),
 ("seg-shm-private", "bug", K8, [(S, ("MAP_SHARED,              // flags", 1), "MAP_PRIVATE,             // flags")]),
 # ---- same behaviour
 ("seg-same-while", "same", K, [(Q, (LOOP, 1), "            int64_t i = 0;\n            while (i != *pCurMsgNumber) {\n                msgDataTotalSize += pFirstMsgDataSize[i];\n                ++i;\n            }\n")]),
 ("seg-same-down", "same", K, [(Q, (LOOP, 1), "            for (int64_t i = *pCurMsgNumber; i > 0; i--) msgDataTotalSize += pFirstMsgDataSize[i - 1];\n")]),
 ("seg-same-ptr", "same", K, [(Q, (LOOP, 1), "            for (const int64_t* p = pFirstMsgDataSize; p != pFirstMsgDataSize + *pCurMsgNumber; ++p) msgDataTotalSize += *p;\n")]),
 ("seg-same-ptr2", "same", K, [(Q, LOOPP, "        const int64_t* p = pFirstMsgDataSize;\n        int64_t c = *pCurMsgNumber;\n        while (c-- > 0) { int64_t v = *p++; msgDataTotalSize = msgDataTotalSize + v; }\n\n        // copy")]),
 ("seg-same-helper", "same", K, [(Q, (LOOP, "all"), "            msgDataTotalSize = sum(pFirstMsgDataSize, *pCurMsgNumber);\n"), (Q, "namespace veigar {\n", "namespace veigar {\nstatic int64_t sum(const int64_t* p, int64_t n) {\n    int64_t r = 0;\n    for (int64_t i = 0; i < n; ++i) r += p[i];\n    return r;\n}\n")]),
 ("seg-same-accumulate", "same", K, [(Q, (LOOP, "all"), "            msgDataTotalSize = std::accumulate(pFirstMsgDataSize, pFirstMsgDataSize + *pCurMsgNumber, (int64_t)0);\n"), (Q, "#include <cstring>\n", "#include <cstring>\n#include <numeric>\n")]),
 ("seg-same-shiftloop", "same", K, [(Q, SHIFT, "for (int64_t i = 0; i < *pCurMsgNumber; i++) {\n            pFirstMsgDataSize[i] = pFirstMsgDataSize[i + 1];\n        }")]),
 ("seg-same-copy", "same", K, [(Q, SHIFT, "std::copy(pFirstMsgDataSize + 1, pFirstMsgDataSize + 1 + *pCurMsgNumber, pFirstMsgDataSize);"), (Q, "#include <cstring>\n", "#include <cstring>\n#include <algorithm>\n")]),
 ("seg-same-push", "same", K, [(Q, PUSH2, """        if (tailFree < dataSize) {
            memmove(pFirstMsgData, pFirstMsgData + *pFrontFree, (size_t)msgDataTotalSize);
            *pFrontFree = 0;
        }
        uint8_t* pCopyBegin = pFirstMsgData + *pFrontFree + msgDataTotalSize;
        pFirstMsgDataSize[*pCurMsgNumber] = dataSize;
        *pCurMsgNumber += 1;
""")]),
 ("seg-same-resetempty", "same", K, [(Q, "        ret = true;\n    } while (false);\n\n    return ret;\n}\n\nint64_t", "        if (*pCurMsgNumber == 0) {\n            *pFrontFree = 0;\n        }\n        ret = true;\n    } while (false);\n\n    return ret;\n}\n\nint64_t")]),
 ("seg-same-resetempty2", "same", K, [(Q, TAIL, "if (*pCurMsgNumber == 0) *pFrontFree = 0;\n        " + TAIL)]),
 ("seg-same-struct", "same", K, [(Q, "        int64_t* const pShmSize = p64;\n        int64_t* const pCurMsgNumber = p64 + 1;\n        int64_t* const pFrontFree = p64 + 2;\n        int64_t* const pFirstMsgDataSize = p64 + 3;\n\n        int64_t msgSizeHeaderTotalSize", "        struct Hd { int64_t s, n, f; };\n        Hd* h = (Hd*)shmData;\n        int64_t* const pShmSize = &h->s;\n        int64_t* const pCurMsgNumber = &h->n;\n        int64_t* const pFrontFree = &h->f;\n        int64_t* const pFirstMsgDataSize = (int64_t*)(h + 1);\n\n        int64_t msgSizeHeaderTotalSize")]),
 ("seg-same-early", "same", K, [(Q, FULL, "if (*pCurMsgNumber >= msgMaxNumber_ || dataSize > totalFree) {")]),
 ("seg-same-guard", "same", K, [(Q, "        if (*pCurMsgNumber > 0) {\n" + LOOP + "        }\n\n        int64_t totalFree = *pShmSize - msgSizeHeaderTotalSize - sizeof(int64_t) * 3 - msgDataTotalSize;\n        int64_t tailFree", LOOP + "        int64_t totalFree = *pShmSize - (int64_t)((msgMaxNumber_ + 3) * sizeof(int64_t)) - msgDataTotalSize;\n        int64_t tailFree")]),
 ("seg-same-popnosum", "same", K, [(Q, LOOPP, "        // copy")]),
 ("seg-same-ret", "same", K, [(Q, "        if (*pCurMsgNumber <= 0) {\n            break;\n        }\n        int64_t* const pFrontFree", "        if (!(*pCurMsgNumber > 0)) {\n            return false;\n        }\n        int64_t* const pFrontFree")]),
 ("seg-same-bytecopy", "same", K, [(Q, OUT, "for (int64_t i = 0; i < written; i++) ((uint8_t*)buf)[i] = pCopyBegin[i];")]),
 ("seg-same-assignn", "same", K, [(Q, "        *pCurMsgNumber -= 1;\n\n        // set front free\n        *pFrontFree += *pFirstMsgDataSize;\n", "        const int64_t left = *pCurMsgNumber - 1;\n        *pFrontFree = *pFrontFree + written;\n        *pCurMsgNumber = left;\n")]),
 ("seg-same-local", "same", K, [(Q, "        int64_t totalFree = *pShmSize - msgSizeHeaderTotalSize - sizeof(int64_t) * 3 - msgDataTotalSize;\n        if", "        const int64_t cap = *pShmSize - msgSizeHeaderTotalSize - sizeof(int64_t) * 3;\n        int64_t totalFree = cap - msgDataTotalSize;\n        if")]),
 ("seg-same-sumwhile-break", "same", K, [(Q, (LOOP, 1), "            for (int64_t i = 0;; i++) {\n                if (i >= *pCurMsgNumber) break;\n                msgDataTotalSize += *(pFirstMsgDataSize + i);\n            }\n")]),
 ("seg-same-capfn", "same", K, [(Q, ("sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_", "all"), "(int64_t)msgMaxNumber_ * ((int64_t)msgExpectedMaxSize_ + (int64_t)sizeof(int64_t)) + 24")]),
 ("seg-same-do", "same", K, [(Q, (LOOP, 1), "            int64_t i = 0;\n            do { msgDataTotalSize += pFirstMsgDataSize[i++]; } while (i < *pCurMsgNumber);\n")]),
]
