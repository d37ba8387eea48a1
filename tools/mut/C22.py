H="src/hashmap.c"
GETL="""    Entry* entry = map->buckets[index];
    while (entry != NULL) {
        if (equalKeys(entry->key, entry->hash, key, hash, map->equals)) {
            return entry->value;
        }
        entry = entry->next;
    }
    return NULL;
}
bool"""
PUTN="""            *p = createEntry(key, hash, value);
            if (*p == NULL) {
                if (p_res != NULL) {
                    *p_res = NULL;
                }
                return -(ENOMEM);
            }
            map->size++;"""
MUT=[
("contains never advances",[(H,"""            return true;
        }
        entry = entry->next;""","""            return true;
        }""")]),
 ("bucket-get",[(H,"    size_t index = calculateIndex(map->bucketCount, hash);\n    Entry* entry = map->buckets[index];\n    while (entry != NULL) {\n        if (equalKeys(entry->key, entry->hash, key, hash, map->equals)) {\n            return entry->value;","    size_t index = calculateIndex(map->bucketCount / 2 + 1, hash);\n    Entry* entry = map->buckets[index];\n    while (entry != NULL) {\n        if (equalKeys(entry->key, entry->hash, key, hash, map->equals)) {\n            return entry->value;")]),
 ("hash-remove",[(H,"void* hashmapRemove(Hashmap* map, void* key) {\n    int hash = hashKey(map, key);","void* hashmapRemove(Hashmap* map, void* key) {\n    int hash = map->hash(key);")]),
 ("get-onlyhash",[(H,"""        if (equalKeys(entry->key, entry->hash, key, hash, map->equals)) {
            return entry->value;""","""        if (entry->hash == hash) {
            return entry->value;""")]),
 ("equals-swap",[(H,"    if (hashA != hashB) {\n        return false;\n    }\n    return equals(keyA, keyB);","    if (hashA == hashB) {\n        return true;\n    }\n    return equals(keyA, keyB);")]),
 ("get-first",[(H,GETL,GETL.replace("        entry = entry->next;\n    }","        break;\n    }"))]),
 ("get-skip",[(H,GETL,GETL.replace("        entry = entry->next;\n    }","        entry = entry->next;\n        if (entry != NULL && entry->next != NULL) entry = entry->next;\n    }"))]),
 ("contains-val",[(H,"            return true;\n        }\n        entry","            return entry->value != NULL;\n        }\n        entry")]),
 ("put-size-before",[(H,PUTN,PUTN.replace("            map->size++;","").replace("            *p = createEntry","            map->size++;\n            *p = createEntry"))]),
 ("put-oldsize",[(H,"            void* oldValue = current->value;\n            current->value = value;","            void* oldValue = current->value;\n            current->value = value;\n            map->size++;")]),
 ("put-keep",[(H,"            void* oldValue = current->value;\n            current->value = value;","            void* oldValue = current->value;\n            if (value != NULL) current->value = value;")]),
 ("put-res",[(H,"            current->value = value;\n            if (p_res != NULL) {\n                *p_res = oldValue;","            current->value = value;\n            if (p_res != NULL) {\n                *p_res = value;")]),
 ("put-head",[(H,PUTN,PUTN.replace("*p = createEntry(key, hash, value);","p = &map->buckets[index]; *p = createEntry(key, hash, value);"))]),
 ("entry-hash",[(H,"    entry->hash = hash;","    entry->hash = hash & 0xffff;")]),
 ("entry-next",[(H,"    entry->next = NULL;\n","")]),
 ("memo-store",[(H,"            (*p)->value = value;\n            map->size++;","            map->size++;")]),
 ("memo-size",[(H,"            (*p)->value = value;\n            map->size++;","            (*p)->value = value;")]),
 ("memo-over",[(H,"            if (p_res != NULL) {\n                *p_res = current->value;","            if (current->value == NULL) current->value = initialValue(key, context);\n            if (p_res != NULL) {\n                *p_res = current->value;")]),
 ("rm-size",[(H,"            free(current);\n            map->size--;","            free(current);\n            if (*p == NULL) map->size--;")]),
 ("rm-unlink",[(H,"            *p = current->next;\n            free(current);","            if (current->next != NULL) *p = current->next; else map->buckets[index] = NULL;\n            free(current);")]),
 ("rm-unlink2",[(H,"            *p = current->next;\n            free(current);","            map->buckets[index] = current->next;\n            free(current);")]),
 ("rm-val",[(H,"            map->size--;\n            return value;","            map->size--;\n            return current->key;")]),
 ("grow-hash",[(H,"calculateIndex(newBucketCount, entry->hash)","calculateIndex(map->bucketCount, entry->hash)")]),
 ("grow-rehash",[(H,"calculateIndex(newBucketCount, entry->hash)","calculateIndex(newBucketCount, map->hash(entry->key))")]),
 ("grow-chain",[(H,"                entry->next = newBuckets[index];","                entry->next = NULL;")]),
 ("grow-next",[(H,"                entry = next;\n            }\n        }\n        // Copy","                entry = entry->next;\n            }\n        }\n        // Copy")]),
 ("grow-count",[(H,"        map->bucketCount = newBucketCount;","        map->bucketCount = newBucketCount << 1;")]),
 ("grow-lost",[(H,"        for (i = 0; i < map->bucketCount; i++) {\n            Entry* entry = map->buckets[i];\n            while (entry != NULL) {\n                Entry* next = entry->next;\n                size_t index","        for (i = 1; i < map->bucketCount; i++) {\n            Entry* entry = map->buckets[i];\n            while (entry != NULL) {\n                Entry* next = entry->next;\n                size_t index")]),
 ("grow-last",[(H,"        for (i = 0; i < map->bucketCount; i++) {\n            Entry* entry = map->buckets[i];\n            while (entry != NULL) {\n                Entry* next = entry->next;\n                size_t index","        for (i = 0; i + 1 < map->bucketCount; i++) {\n            Entry* entry = map->buckets[i];\n            while (entry != NULL) {\n                Entry* next = entry->next;\n                size_t index")]),
 ("grow-if",[(H,"            while (entry != NULL) {\n                Entry* next = entry->next;\n                size_t index","            if (entry != NULL) {\n                Entry* next = entry->next;\n                size_t index")]),
 ("each-stop",[(H,"            if (!callback(entry->key, entry->value, context)) {\n                return;","            if (!callback(entry->key, entry->value, context)) {\n                break;")]),
 ("each-last",[(H,"""void* context) {
    size_t i;
    for (i = 0; i < map->bucketCount; i++) {""","""void* context) {
    size_t i;
    for (i = 0; i < map->bucketCount - 1; i++) {""")]),
 ("each-first",[(H,"""void* context) {
    size_t i;
    for (i = 0; i < map->bucketCount; i++) {""","""void* context) {
    size_t i;
    for (i = 0; i < map->size; i++) {""")]),
 ("size-q",[(H,"    return map->size;","    return map->size < map->bucketCount ? map->size : map->bucketCount;")]),
 ("create-size",[(H,"    map->size = 0;\n","")]),
 ("create-count",[(H,"    map->buckets = calloc(map->bucketCount, sizeof(Entry*));","    map->buckets = calloc(map->bucketCount, sizeof(Entry*));\n    map->bucketCount <<= (initialCapacity == 0);")]),
 ("free-next",[(H,"            Entry* next = entry->next;\n            free(entry);\n            entry = next;","            Entry* next = entry->next;\n            free(entry);\n            entry = next == NULL ? NULL : next->next;")]),
]
REF=[
 ("find-helper",[(H,"int hashmapPut(","static Entry** findSlot(Hashmap* map, void* key, int hash) {\n    Entry** p = &(map->buckets[calculateIndex(map->bucketCount, hash)]);\n    while (*p != NULL && !equalKeys((*p)->key, (*p)->hash, key, hash, map->equals)) {\n        p = &(*p)->next;\n    }\n    return p;\n}\nint hashmapPut("),
   (H,"    size_t index = calculateIndex(map->bucketCount, hash);\n    // Pointer to the current entry.\n    Entry** p = &(map->buckets[index]);\n    Entry* current;\n    while ((current = *p) != NULL) {\n        if (equalKeys(current->key, current->hash, key, hash, map->equals)) {\n            void* value = current->value;\n            *p = current->next;\n            free(current);\n            map->size--;\n            return value;\n        }\n        p = &current->next;\n    }\n    return NULL;","    Entry** p = findSlot(map, key, hash);\n    Entry* current = *p;\n    if (current == NULL) {\n        return NULL;\n    }\n    void* value = current->value;\n    *p = current->next;\n    map->size--;\n    free(current);\n    return value;")]),
 ("get-for",[(H,GETL,"    for (Entry* entry = map->buckets[index]; entry != NULL; entry = entry->next) {\n        if (!equalKeys(entry->key, entry->hash, key, hash, map->equals)) {\n            continue;\n        }\n        return entry->value;\n    }\n    return NULL;\n}\nbool")]),
 ("get-empty",[(H,"void* hashmapGet(Hashmap* map, void* key) {\n","void* hashmapGet(Hashmap* map, void* key) {\n    if (map->size == 0) {\n        return NULL;\n    }\n")]),
 ("contains-find",[(H,"bool hashmapContainsKey(","static Entry* findEntry(Hashmap* map, void* key) {\n    int hash = hashKey(map, key);\n    Entry* entry = map->buckets[calculateIndex(map->bucketCount, hash)];\n    while (entry != NULL && !equalKeys(entry->key, entry->hash, key, hash, map->equals)) {\n        entry = entry->next;\n    }\n    return entry;\n}\nbool hashmapContainsKey("),(H,"""    int hash = hashKey(map, key);
    size_t index = calculateIndex(map->bucketCount, hash);
    Entry* entry = map->buckets[index];
    while (entry != NULL) {
        if (equalKeys(entry->key, entry->hash, key, hash, map->equals)) {
            return true;
        }
        entry = entry->next;
    }
    return false;""","    return findEntry(map, key) != NULL;")]),
 ("put-local",[(H,PUTN,"""            Entry* created = createEntry(key, hash, value);
            if (created == NULL) {
                if (p_res != NULL) {
                    *p_res = NULL;
                }
                return -(ENOMEM);
            }
            *p = created;
            ++map->size;""")]),
 ("put-early-res",[(H,"    Entry** p = &(map->buckets[index]);\n    while (true) {\n        Entry* current = *p;\n        // Add a new entry.\n        if (current == NULL) {\n            *p = createEntry(key, hash, value);","    Entry** p = &(map->buckets[index]);\n    if (p_res != NULL) {\n        *p_res = NULL;\n    }\n    while (true) {\n        Entry* current = *p;\n        // Add a new entry.\n        if (current == NULL) {\n            *p = createEntry(key, hash, value);")]),
 ("modulo",[(H,"    return ((size_t) hash) & (bucketCount - 1);","    return ((size_t) hash) % bucketCount;")]),
 ("eq-order",[(H,"    if (keyA == keyB) {\n        return true;\n    }\n    if (hashA != hashB) {\n        return false;\n    }\n    return equals(keyA, keyB);","    return keyA == keyB || (hashA == hashB && equals(keyA, keyB));")]),
 ("calloc-entry",[(H,"    Entry* entry = malloc(sizeof(Entry));","    Entry* entry = calloc(1, sizeof(*entry));"),(H,"    entry->next = NULL;\n","")]),
 ("grow-for",[(H,"""            Entry* entry = map->buckets[i];
            while (entry != NULL) {
                Entry* next = entry->next;
                size_t index = calculateIndex(newBucketCount, entry->hash);
                entry->next = newBuckets[index];
                newBuckets[index] = entry;
                entry = next;
            }""","""            for (Entry *entry = map->buckets[i], *next; entry != NULL; entry = next) {
                Entry** slot = &newBuckets[calculateIndex(newBucketCount, entry->hash)];
                next = entry->next;
                entry->next = *slot;
                *slot = entry;
            }""")]),
 ("grow-helper",[(H,"static void expandIfNecessary(","static void relink(Entry** buckets, size_t count, Entry* entry) {\n    while (entry != NULL) {\n        Entry* next = entry->next;\n        size_t index = calculateIndex(count, entry->hash);\n        entry->next = buckets[index];\n        buckets[index] = entry;\n        entry = next;\n    }\n}\nstatic void expandIfNecessary("),(H,"""            Entry* entry = map->buckets[i];
            while (entry != NULL) {
                Entry* next = entry->next;
                size_t index = calculateIndex(newBucketCount, entry->hash);
                entry->next = newBuckets[index];
                newBuckets[index] = entry;
                entry = next;
            }""","            relink(newBuckets, newBucketCount, map->buckets[i]);")]),
 ("grow-early",[(H,"    if (map->size > (map->bucketCount * 3 / 4)) {","    if (map->size <= (map->bucketCount * 3 / 4)) {\n        return;\n    }\n    {")]),
 ("grow-times2",[(H,"map->bucketCount << 1;\n        Entry** newBuckets","map->bucketCount * 2;\n        Entry** newBuckets")]),
 ("grow-down",[(H,"        size_t i;\n        for (i = 0; i < map->bucketCount; i++) {\n            Entry* entry","        size_t i = map->bucketCount;\n        while (i-- > 0) {\n            Entry* entry")]),
 ("each-ptr",[(H,"""        Entry* entry = map->buckets[i];
        while (entry != NULL) {
            if (!callback(entry->key, entry->value, context)) {
                return;
            }
            entry = entry->next;
        }""","""        for (Entry* entry = map->buckets[i]; entry != NULL; entry = entry->next) {
            bool more = callback(entry->key, entry->value, context);
            if (!more) {
                return;
            }
        }""")]),
 ("each-next-first",[(H,"""            if (!callback(entry->key, entry->value, context)) {
                return;
            }
            entry = entry->next;""","""            Entry* next = entry->next;
            if (!callback(entry->key, entry->value, context)) {
                return;
            }
            entry = next;""")]),
 ("rm-order",[(H,"            *p = current->next;\n            free(current);\n            map->size--;","            map->size -= 1;\n            Entry* next = current->next;\n            *p = next;\n            free(current);")]),
 ("memo-value-first",[(H,"            *p = createEntry(key, hash, NULL);\n            if (*p == NULL) {\n                return -(ENOMEM);\n            }\n            void* value = initialValue(key, context);\n            (*p)->value = value;\n            map->size++;","            Entry* e = createEntry(key, hash, NULL);\n            if (e == NULL) {\n                return -(ENOMEM);\n            }\n            e->value = initialValue(key, context);\n            void* value = e->value;\n            *p = e;\n            map->size++;")]),
 ("rm-prev",[(H,"""    Entry** p = &(map->buckets[index]);
    Entry* current;
    while ((current = *p) != NULL) {
        if (equalKeys(current->key, current->hash, key, hash, map->equals)) {
            void* value = current->value;
            *p = current->next;
            free(current);
            map->size--;
            return value;
        }
        p = &current->next;
    }""","""    Entry* prev = NULL;
    Entry* current = map->buckets[index];
    while (current != NULL) {
        if (equalKeys(current->key, current->hash, key, hash, map->equals)) {
            void* value = current->value;
            if (prev != NULL) {
                prev->next = current->next;
            } else {
                map->buckets[index] = current->next;
            }
            free(current);
            map->size--;
            return value;
        }
        prev = current;
        current = current->next;
    }""")]),
]
