"""What each check runs.

An item is `HARNESS:ARGS/MARKS[@b]`: MARKS (binary) are the marks that the
harness must reach (a reachability witness: the exploration is not vacuous),
`@b` asks for the build in which the compaction works by batches of two entries
(cfg `findex_verif`), `@L` allows for paths of 600 million instructions instead
of 60. `quick` runs in less than a minute; `thorough` replaces it
by larger bounds.
"""

CHECKS = {
    "C01": dict(
        quick="h_hist:3,0/111 h_hist:2,0,1/111 h_hist:4,0/111 h_batch:2,1,1,0/11 h_long:4,2,1,1/1 h_long:7,3,2,31/1 h_long:12,12,1,1/1 h_empty/1 h_many:6,2,0,2/1 h_many:40,2,0/1 h_many:2,40,10/1 h_many:260,1,0/1 h_many:1,330,10/1 h_long:260,2,1,2/1 h_peers:2,0,20/1 h_peers:3,0,20/1",
        thorough="h_hist:5,0/111 h_hist:4,0,1/111 h_hist:4,0/111 h_batch:2,2,1,0/11 h_batch:3,1,0,0/11 h_long:8,3,3,40/1 h_long:30,7,2,1/1 h_long:20,20,2,90/1 h_empty/1 h_many:6,2,0,2/1 h_many:40,2,0/1 h_many:520,1,0/1@L h_many:2,40,10/1 h_many:1,600,10/1@L h_long:300,1,1,80/1@L h_long:260,60,2,2/1@L h_peers:4,0,20/1",
        bounds="histories of up to 4 (thorough: 5) calls on arbitrary one-byte keywords and values; batches of up to 4 (5) arbitrary associations; chains of up to 260 (300) values added in calls of 1 to 60, of up to 31 (90) bytes, with a further symbolic operation; calls on 260 keywords of 1 value (520), or 1 keyword of 330 long values (600); two clients which take turns, up to 3 (4) operations, each searching after each of them"),
    "C02": dict(
        quick="h_value:0,40/1 h_value:62,98/1 h_value:125,135/1 h_value:250,258/1 h_value:0,40,1/1 h_value:60,80,1/1 h_value:0,20,0,1/1 h_values:2,8/1 h_keyword:3/11 h_keyword:120/11 h_big:300,1000,5,0/1 h_big:1000,4000,3,1/1 h_big:300,4100,2,2/1 h_big:65536,1,1,0/1@L h_big:65530,10,2,1/1@L h_alike:2049,0/11 h_alike:4097,1/1 h_alike:8193,0/11",
        thorough="h_value:0,600/1 h_value:0,300,1/1 h_value:0,200,0,1/1 h_values:3,8/1 h_values:4,4/1 h_keyword:6/11 h_keyword:120/11 h_big:300,250,40,0/1 h_big:1000,1000,10,1/1 h_big:300,1000,10,2/1 h_big:60000,5536,2,0/1@L h_big:65530,7,2,2/1@L h_alike:2049,0/11 h_alike:4097,1/1 h_alike:8193,0/11 h_alike:16385,0/11@L h_alike:33000,1/1@L",
        bounds="values and pointers of 0 to 40, 62 to 98, 125 to 135 and 250 to 258 bytes (thorough: 0 to 600), all their bytes being arbitrary; of up to 9000, and around 65536, bytes, a few of which are arbitrary; several values at the boundaries of blocks and lines in one call; pairs of keywords of up to 1025 arbitrary bytes; pairs of keywords of 2049 to 8193 (33000) bytes which differ in any way at twelve places, or by their ends"),
    "C03": dict(
        quick="h_graph:2,0,1,1/11 h_graph:2,2,2,2/11 h_graph:3,0,1/11 h_graph:3,1,3/11 h_graph:3,2,1/11 h_deep:8/1 h_levels:3,0/11 h_levels:3,2/11 h_shape:130,0/1 h_shape:30,0,1/1 h_shape:60,1,0,2/1 h_shape:24,2,1,2/1 h_shape:20,3,0,2/1 h_shape:20,4,1/1 h_shape:260,1,0,2/1 h_deep:260,1/1@L h_bulk_wide:100/11",
        thorough="h_graph:3,0,3,2/11 h_graph:3,2,3,2/11 h_graph:3,1,2,1/11 h_graph:4,0,1/11 h_graph:4,2,2/11 h_deep:24/1 h_deep:260/1@L h_levels:4,0/11 h_levels:3,2/11 h_shape:300,0/1 h_shape:64,0,1/1 h_shape:260,1,0,2/1 h_shape:40,2,1,2/1 h_shape:40,3,0,2/1 h_shape:60,4,1/1 h_bulk_wide:280/11@L",
        bounds="every directed graph on up to 3 (thorough: 4) keywords (self-loops and cycles included), built in one or several calls and with deletions; chains, stars, ladders and rings of up to 260 (300) keywords, from an arbitrary place; 100 (280) keywords between two others"),
    "C04": dict(
        quick="h_edx:2,2,0/1111 h_edx:3,2,0/1111 h_edx:2,2,0,2/1111 h_edx:3,2,1/11 h_edx:2,2,1,2/11 h_edx_fault:0/1 h_edx_fault:1/1 h_edx_many:5,0,2/1 h_edx_many:5,1,2/1 h_edx_many:300,0/1 h_edx_many:300,1/1",
        thorough="h_edx:3,2,0,2/1111 h_edx:3,2,0/1111 h_edx:2,3,0/1111 h_edx:4,2,1/11 h_edx:3,2,1,2/11 h_edx_fault:0/1 h_edx_fault:1/1 h_edx_many:9,0,2/1 h_edx_many:9,1,2/1 h_edx_many:600,0/1@L h_edx_many:600,1/1@L",
        bounds="sequences of up to 3 (thorough: 4) calls over 2 (3) tokens, on entries of 5 bytes and lines of 7 bytes with arbitrary contents; calls on 300 (600) lines one of which, anywhere, is not as the others; a failing database"),
    "C05": dict(
        quick="h_hist:3,1/1 h_hist:4,1,2/1 h_batch:2,1,1,1/1 h_batch:2,2,1,1/1 h_touch:1,2,2/11 h_touch:2,2,0/11 h_many:260,1,0/1 h_peers:1,1,0/1 h_peers:2,1,2/1 h_peers:2,1,10/1 h_bulk_fault:60,0/11",
        thorough="h_hist:6,1/1 h_hist:5,1,2/1 h_batch:3,2,1,1/1 h_batch:3,3,2,1/1 h_touch:2,2,2/11 h_touch:2,3,0/11 h_many:300,1,0/1 h_peers:2,2,0/1 h_peers:3,1,12/1 h_bulk_fault:270,0/11@L",
        bounds="histories of up to 4 (thorough: 6) calls; batches of up to 5 (8) associations, keywords and values being arbitrary bytes, data or pointers; calls on 260 (300) keywords; two clients which take turns, up to 3 operations around a compaction; 60 (270) keywords, with a failing database"),
    "C06": dict(
        quick="h_keep:2,0,1,0/1 h_keep:3,1,0,1/1 h_keep:3,2,0,2/1 h_keep:2,2,1,0/1 h_partial:2,1/1 h_partial:3,2/1 h_filter:2,0/1 h_filter:3,1/11 h_mixed:2,0/1 h_mixed:3,2/1 h_many:6,2,1,2/1 h_many:1,100,2/1 h_many:1,330,11/1@L h_many:260,1,1/1@L h_many:30,2,1/1 h_many:4,9,12/1 h_keep:3,0,0,0/1@b h_partial:2,1/1@b h_filter:3,0/1@b h_mixed:3,2/1@b h_many:9,2,1/1@b h_peers:2,1,1/1 h_peers:2,1,12/1 h_bulk_partial:12,2,2,1/1 h_bulk_partial:60,1,2,0/1 h_bulk_partial:9,2,1,1/1@b",
        thorough="h_keep:3,0,1,0/1 h_keep:3,2,1,2/1 h_keep:4,3,0,1/1 h_keep:4,1,0,2/1 h_partial:2,2/1 h_partial:3,3/1 h_filter:3,1/11 h_mixed:3,0/1 h_mixed:3,2/1 h_many:6,2,1,2/1 h_many:1,600,11/1@L h_many:300,2,2/1@L h_many:300,1,1/1@L h_many:4,40,12/1 h_keep:4,0,0,0/1@b h_keep:3,2,1,0/1@b h_partial:3,3/1@b h_filter:3,0/1@b h_mixed:3,2/1@b h_many:21,2,1,2/1@b h_peers:2,2,1/1 h_peers:3,1,10/1 h_bulk_partial:30,2,2,1/1@L h_bulk_partial:270,1,2,0/1@L h_bulk_partial:20,3,2,1/1@b",
        bounds="up to 3 (thorough: 4) arbitrary operations, a compaction at rate 0, 0.2, 0.45 or 1 with the compacted entries drawn symbolically, further operations and a second compaction; up to 2 (3) successive partial compactions of 3 keywords; symbolic data filters; 260 (300) keywords, and chains of 330 (600) values; also with batches of 2 entries; two clients which take turns, up to 3 (4) operations around a compaction; partial compactions of 12 and 60 (270) keywords, one of the draws being arbitrary (the others are pseudo-random)"),
    "C07": dict(
        quick="h_minimal:3,1/11 h_minimal:4,20,1/11 h_minimal:2,15,3/1 h_minimal:2,20,5/1 h_minimal:2,1,6/1 h_pack:2,12,18,2/1 h_pack:3,14,17/1 h_pack:2,70,82/1 h_minimal:2,1/11@b h_minimal:3,1/11@b",
        thorough="h_minimal:4,1/11 h_minimal:5,20,2/11 h_minimal:3,80,3/1 h_minimal:2,1,11/1 h_pack:3,10,20,2/1 h_pack:4,14,17/1 h_pack:2,60,100/1 h_minimal:4,1/11@b",
        bounds="up to 4 (thorough: 5) arbitrary operations on arbitrary keywords; chains of up to 6 (11) values of up to 82 (100) bytes of symbolic lengths with symbolic additions and deletions; also with batches of 2 entries"),
    "C08": dict(
        quick="h_renew:2,0,0/1 h_renew:2,1,1/1 h_renew:2,2,2/1 h_renew:3,0,2/1 h_renew:3,2,0/1 h_renew:3,0,0/1@b h_renew:4,2,0/1@b h_peers:1,1,0/1 h_peers:2,1,1/1 h_bulk_renew:60,1,0/1 h_bulk_renew:60,0,1/1 h_bulk_renew:60,1,2,2/1 h_bulk_renew:270,1,1/1@L h_bulk_renew:9,1,0/1@b",
        thorough="h_renew:4,0,0/1 h_renew:4,1,2/1 h_renew:4,2,1/1 h_renew:4,3,0/1 h_renew:4,0,2/1@b h_renew:4,2,0/1@b h_peers:2,2,2/1 h_bulk_renew:60,1,0,2/1 h_bulk_renew:60,0,1,2/1 h_bulk_renew:300,1,2/1@L h_bulk_renew:300,0,0/1@L h_bulk_renew:21,1,0/1@b",
        bounds="up to 4 entries with arbitrary keywords, new key, new label or both, rates 0, 0.2, 0.45 and 1, the compacted entries being drawn symbolically; two clients around a compaction; 60, 100 and 270 (300) keywords"),
    "C09": dict(
        quick="h_fail:2,0,0/11111 h_fail:2,1,0/1111 h_fail:2,2,0/1111 h_fail:2,3,0/1111 h_fail:3,0,2/11111 h_fail:2,3,1,1/1111 h_fail:2,2,2,2/1111 h_collide:2,0/1 h_collide:2,1,1/1 h_collide:2,2/1 h_wrong_key:2,0/1 h_wrong_key:2,2/1 h_filter:2,1/11 h_bulk_fail:40,0,1/11 h_bulk_fail:40,1,1/11 h_bulk_fail:40,2,1/11 h_bulk_fail:40,3,1/11 h_bulk_fail:60,0,0/11 h_bulk_fail:60,3,0/11 h_bulk_collide:60,1/1 h_bulk_collide:60,0/1",
        thorough="h_fail:3,0,0/11111 h_fail:3,1,0/1111 h_fail:3,2,0,1/1111 h_fail:3,3,0/1111 h_fail:4,0,2/11111 h_fail:3,1,2/1111 h_fail:3,2,3,1/1111 h_fail:4,3,2,2/1111 h_collide:3,0/1 h_collide:3,1,1/1 h_collide:3,2/1 h_wrong_key:3,0/1 h_wrong_key:3,2/1 h_filter:3,1/11 h_bulk_fail:270,0,1/11@L h_bulk_fail:270,1,1/11@L h_bulk_fail:100,2,1/11@L h_bulk_fail:100,3,1/11@L h_bulk_fail:270,0,0/11@L h_bulk_fail:270,3,0/11@L h_bulk_collide:270,1/1@L h_bulk_collide:100,0/1@L",
        bounds="a database error (with or without effect) or a crash before or after any database call of the compaction of up to 3 (thorough: 4) operations; collisions between two indexes; wrong key; failing filter; 60 (270) keywords, with a fault at any call"),
    "C10": dict(
        quick="h_fault:0,1,0/11 h_fault:1,1,1/11 h_fault:2,70,1/11 h_fault:3,70,2/11 h_fault:0,1,2/11 h_fault:3,1,1/11 h_dead:2/11 h_overtaken:2,1,0/11 h_overtaken:2,1,1/11 h_overtaken:2,0,2/11 h_overtaken:2,1,3/11 h_bulk_fault:100,0/11 h_bulk_fault:100,1/11 h_bulk_fault:100,2/11 h_bulk_fault:100,3/11",
        thorough="h_fault:0,1,0/11 h_fault:0,70,2/11 h_fault:0,1,3/11 h_fault:1,1,1/11 h_fault:1,90,2/11 h_fault:2,70,1/11 h_fault:2,1,3/11 h_fault:3,70,2/11 h_fault:3,1,3/11 h_dead:3/11 h_overtaken:5,1,0/11 h_overtaken:5,0,1/11 h_overtaken:5,0,2/11 h_overtaken:5,1,3/11 h_bulk_fault:270,0/11@L h_bulk_fault:270,1/11@L h_bulk_fault:270,2/11@L h_bulk_fault:270,3/11@L",
        bounds="a database error (with or without effect) or a crash at any call of an addition or deletion on two keywords, over a base of up to 2 (thorough: 3) values per keyword, also when the client has been overtaken up to 2 (5) times; a client dead at any step among up to 2 (3) clients, for all the schedules; 100 (270) keywords, with a fault at any call"),
    "C11": dict(
        quick="h_writers:2,0,0,3/11 h_writers:2,1,0,3/11 h_writers:2,1,0,1/11 h_writers:3,1,1,1/11 h_writers:2,1,11,1/11 h_writers:2,1,10,2/11 h_writers:2,1,0,19/11 h_batches:0,0/11 h_batches:1,1/11 h_batches:1,1,1/11 h_starve:39,0,0/1 h_starve:39,1,1/1 h_starve:39,1,2/11 h_bulk_crowd:20/1",
        thorough="h_writers:2,2,0,3/11 h_writers:3,0,1,3/11 h_writers:3,1,1,1/11 h_writers:3,1,0,1/11 h_writers:3,0,0,2/11 h_writers:3,0,11,1/11 h_writers:3,0,1,17/11 h_batches:0,0/11 h_batches:1,0/11 h_batches:1,1/11 h_batches:0,1/11 h_batches:0,0,1/11 h_starve:300,0,0/1@L h_starve:300,1,1/1@L h_starve:100,1,2/11 h_bulk_crowd:60/1@L",
        bounds="all the interleavings, at the granularity of a database call, of up to 3 concurrent clients with one operation each (several lines included), and of two clients with several keywords each, with several clients or one used by several tasks; a client overtaken any number of times up to 39 (thorough: 300), on one of its two entries or on both in turn; 20 (60) clients in turn"),
    "C12": dict(
        quick="h_reader:1,0,1,1/11 h_reader:1,1,1,2/11 h_reader:2,0,1,1/11 h_reader:1,0,80,2/11 h_reader:2,1,1,1/11 h_reader:1,2,90,2/11 h_reader:1,3,1,1/11 h_bulk_reader:100/1",
        thorough="h_reader:2,0,1,2/11 h_reader:2,1,80,2/11 h_reader:2,1,1,1/11 h_reader:1,1,200,2/11 h_reader:2,2,1,2/11 h_reader:2,3,90,1/11 h_bulk_reader:270/1@L",
        bounds="all the interleavings of a search, through one or two levels of keywords, with up to 2 concurrent writers, which may share its client; values of up to 90 (thorough: 200) bytes, over several lines; any number of additions up to 100 (270) between two steps of a search, then searches by both clients"),
    "C13": dict(
        quick="h_memdb:2,2,1/11111 h_memdb:3,2,1/11111 h_memdb:2,3,2/11111 h_memdb_many:6,1/1 h_memdb_many:4,2/1 h_memdb_many:300/1@L",
        thorough="h_memdb:3,2,1/11111 h_memdb:3,2,2/11111 h_memdb:3,3,0/11111 h_memdb:4,2,0/11111 h_memdb_many:9,2/1 h_memdb_many:600/1@L",
        bounds="sequences of up to 3 (thorough: 4) calls with arbitrary arguments over up to 3 tokens and arbitrary values; calls on 300 (600) lines one of which, anywhere, is not as the others"),
    "C14": dict(
        quick="h_isolate:2,2,0,1/11 h_isolate:2,1,1,1/11 h_isolate:3,1,1/11 h_domains:2,2/11 h_domains:2,110/11 h_domains:3,118,1/11 h_domains:110,2,1/11 h_contexts:3,1/1 h_contexts:3,3,2/1 h_bulk_isolate:40/1",
        thorough="h_isolate:2,4,0,1/11 h_isolate:3,2,1,1/11 h_isolate:3,2/11 h_domains:4,4/11 h_domains:2,118/11 h_domains:3,120,1/11 h_domains:118,2,1/11 h_contexts:4,1/1 h_contexts:3,6,2/1 h_contexts:3,110/1 h_bulk_isolate:140/1@L",
        bounds="up to 3 operations under two arbitrary keys and two arbitrary labels of up to 2 (thorough: 4) bytes, searched under either key and a third arbitrary label; pairs of indexes under keywords of up to 64 (256) and labels of up to 256 (1025) arbitrary bytes; one client using in turn two keys which differ in any way and two labels, 3 (4) additions, deletions and searches; four indexes of 40 (140) keywords"),
    "C15": dict(
        quick="h_opaque:0,3,1/1 h_opaque:0,40,2/1 h_opaque:1,3,2/1 h_opaque:2,3,2/1 h_nonces:2,1/1 h_nonces:3,0/1 h_nonces:1,2/1 h_bulk_nonces:60/1",
        thorough="h_opaque:0,0,1/1 h_opaque:0,200,3/1 h_opaque:1,90,2/1 h_opaque:2,90,3/1 h_nonces:2,2/1 h_nonces:4,0/1 h_nonces:3,1/1 h_bulk_nonces:270/1@L",
        bounds="keywords of 3 bytes, labels of 2 bytes, values of up to 40 (thorough: 200) bytes, all arbitrary; histories of up to 3 (4) operations and 2 compactions, of the key or the label, for the nonces; 60 (270) keywords, three calls and a compaction"),
    "C16": dict(
        quick="h_cipher:1/11 h_cipher:2/11 h_cipher:0,1/11 h_cipher:1,1/11 h_cipher:2,1/11 h_tamper:0,4,0/11 h_tamper:1,4,0/11 h_tamper:0,4,1/11 h_tamper:0,4,2/11 h_tamper:1,4,2/11 h_tamper:0,0,0/11 h_tamper:1,0,0/11 h_tamper:0,1,0/11 h_tamper:1,2,0/11 h_tamper:0,3,1/11 h_tamper:0,0,1/11 h_tamper:1,0,2/11 h_tamper:0,2,2/11 h_bulk_tamper:60,0,0/11 h_bulk_tamper:60,1,0/11 h_bulk_tamper:60,0,1/11 h_bulk_tamper:60,0,2/11 h_bulk_tamper:60,1,2/11",
        thorough="h_cipher:0/11 h_cipher:1/11 h_cipher:2/11 h_cipher:0,1/11 h_cipher:1,1/11 h_cipher:2,1/11 h_tamper:0,4,0/11 h_tamper:1,4,0/11 h_tamper:0,4,1/11 h_tamper:1,4,1/11 h_tamper:0,4,2/11 h_tamper:1,4,2/11 h_tamper:0,0,0/11 h_tamper:1,0,0/11 h_tamper:0,1,0/11 h_tamper:0,2,0/11 h_tamper:0,3,0/11 h_tamper:1,1,0/11 h_tamper:1,2,0/11 h_tamper:1,3,0/11 h_tamper:0,0,1/11 h_tamper:0,1,1/11 h_tamper:0,2,1/11 h_tamper:0,3,1/11 h_tamper:0,0,2/11 h_tamper:1,0,2/11 h_tamper:0,1,2/11 h_tamper:1,1,2/11 h_tamper:0,2,2/11 h_tamper:1,2,2/11 h_tamper:0,3,2/11 h_tamper:1,3,2/11 h_bulk_tamper:270,0,0/11@L h_bulk_tamper:270,1,0/11@L h_bulk_tamper:270,0,1/11@L h_bulk_tamper:270,0,2/11@L h_bulk_tamper:270,1,2/11@L",
        bounds="any change of any byte of any line, of its whole tag, ciphertext or nonce, and of the whole line (but for another genuine one), of an index of 2 entries and 3 lines; any change of a byte at seven places of any of 60 (270) entries or lines of a chain"),
    "C17": dict(
        quick="h_token:0,70/11 h_token:286,290/10 h_token:65566,65570/10 h_evalue:0,32,1/11 h_evalue:100,114,2/11 h_evalue:108,118,3/11 h_evalue:20,32,0/11 h_evalue:270,290,1/10 h_evalue:214,220,2/10 h_evalue:362,372,2/10 h_evalue:222,232,3/10 h_evalue:364,374,3/10 h_ivalue:3/11 h_ivalue:3,1/11",
        thorough="h_token:0,100/11 h_evalue:0,64,1/11 h_evalue:0,150,2/11 h_evalue:0,150,3/11 h_evalue:0,64,0/11 h_token:100,300/10 h_token:65566,65570/10 h_evalue:64,600,1/10 h_evalue:65560,65568,1/10 h_evalue:150,600,2/10 h_evalue:65630,65650,2/10 h_evalue:150,600,3/10 h_ivalue:12/11 h_ivalue:5,1/11",
        bounds="every byte string of every length up to 70 (thorough: 300) bytes as a token, and around the expected lengths (thorough: up to 600 bytes) as an encrypted value (plaintexts of 0, 1, 80 and 86 bytes); lengths which exceed the expected ones by a multiple of 256 or of 65536, or are twice them; indexed values over up to 3 (12) arbitrary bytes"),
    "C18": dict(
        quick="h_ser:0,1/1 h_ser:2,1/1 h_ser:3,2/1 h_ser:2,2,1/1 h_ser:1,2,2/1 h_ser:1,1,3/1 h_ser:130,0/1 h_ser:260,0/1 h_garbage:0/10 h_garbage:3,61/11 h_garbage:12/11 h_garbage:3,124/11 h_old:2/1",
        thorough="h_ser:0,0/1 h_ser:2,3/1 h_ser:5,4/1 h_ser:130,0/1 h_ser:300,1/1 h_ser:3,3,1/1 h_ser:2,3,2/1 h_ser:3,1,3/1 h_garbage:6,61/11 h_garbage:70/11 h_garbage:12,124/11 h_garbage:80,60/11 h_old:3/1",
        bounds="tables of up to 3 (thorough: 5) arbitrary lines of 0 to 16356 bytes (260 lines, thorough: 300, for the multi-byte count); arbitrary buffers of up to 12 (70) bytes, or up to 3 (80) arbitrary bytes before well-formed ones"),
    "C19": dict(
        quick="h_written:2,1,20/1 h_written:2,60,90/1 h_written:3,1,4,1/1 h_written:2,1,3,2/1 h_written:2,1,2,4/1 h_readback:2,1,20/1 h_readback:3,1,4,1/1 h_readback:2,30,34/1 h_readback:2,1,2,2/1 h_readback:2,1,2,4/1 h_written_many:20,10/1 h_written_many:280,1/1 h_written_many:2,300/1 h_readback_many:60/1",
        thorough="h_written:2,0,140/1 h_written:3,1,17,1/1 h_written:3,1,17/1 h_written:2,1,17,3/1 h_written:2,1,17,4/1 h_readback:2,0,40/1 h_readback:3,1,16,1/1 h_readback:2,60,64/1 h_readback:2,1,17,2/1 h_readback:2,1,17,5/1 h_written_many:40,10/1@L h_written_many:400,1/1@L h_written_many:2,600/1@L h_readback_many:270/1@L",
        bounds="up to 3 operations on values of up to 90 (thorough: 140) arbitrary bytes under keywords and labels of up to 1025 bytes, written by Findex and read by an independent reference implementation, and conversely; 280 (400) keywords, 300 (600) values"),
    "C20": dict(
        quick="h_interrupt:3,0/1 h_interrupt:4,1/11 h_interrupt:20,1/11 h_interrupt:260,0/1@L h_levels:3,0/11 h_levels:3,0,1/11 h_levels:3,2/11 h_levels:2,2,0,1/11 h_levels:3,0,0,1/11 h_levels:3,0,1,1/11 h_bulk_wide:100/11",
        thorough="h_interrupt:8,1/11 h_interrupt:12,0/1 h_interrupt:70,1/11 h_interrupt:260,1/11@L h_levels:4,0/11 h_levels:4,0,1/11 h_levels:3,2,1/11 h_levels:3,2,0,1/11 h_levels:3,2,1,1/11 h_bulk_wide:280/11@L",
        bounds="a chain of up to 20, and of 260, levels (thorough: 70, 260), and every directed graph on 3 (4) keywords searched from two of them, each with data, deleted data or none, interrupted or failed at any level; a level of 100 (280) keywords"),
    "C21": dict(
        quick="h_rate:1,0/11 h_rate:2,0/111 h_rate:3,0/111 h_rate:2,1/111 h_extreme:3/11 h_extreme:40/11 h_extreme:120/11 h_extreme:300/11@L h_extreme:270,1/11@L h_bulk_partial:20,0,1,1/1 h_bulk_partial:20,2,1,1/1",
        thorough="h_rate:1,1/11 h_rate:2,1/111 h_rate:3,1/111 h_rate:4,0/111 h_rate:5,0/111 h_rate:8,0/111 h_extreme:3/11 h_extreme:300/11@L h_extreme:270,1/11@L h_extreme:520/11@L h_extreme:520,1/11@L h_bulk_partial:60,0,1,1/1 h_bulk_partial:20,2,1,2/1@L",
        bounds="indexes of up to 2 (thorough: 3) entries for every 64-bit rate; up to 3 (8) entries for the multiples of 1/16 in [-1, 3], NaN and the infinities; every random draw; up to 300 (520) entries for every rate of at least 1, null, negative or undefined; 20 (60) entries for one arbitrary draw (the others being pseudo-random)"),
    "C22": dict(
        quick="h_hist:2,2/1 h_hist:3,2/1 h_hist:3,2,2/1 h_pure:0/1 h_pure:1/1 h_pure:2/1 h_pure:3/1 h_pure:4/1 h_pure:5/1 h_bulk_pure:280/1@L",
        thorough="h_hist:4,2/1 h_hist:4,2,2/1 h_hist:3,2,1/1 h_pure:0,2/1 h_pure:1,2/1 h_pure:2,2/1 h_pure:3,2/1 h_pure:4,2/1 h_pure:5,2/1 h_bulk_pure:280/1@L h_bulk_pure:500/1@L",
        bounds="after up to 3 (thorough: 4) arbitrary operations, after a failed or interrupted operation, with missing or altered lines, searching arbitrary keywords twice; 280 (500) keywords, half of them indexed"),
    "C23": dict(
        quick="h_refused:0,0/1 h_refused:1,1/11 h_refused:2,2/11 h_refused:0,0,0,1/11 h_refused:2,2,0,1/11 h_refused:4,4,1/11 h_refused:114,114,1/11",
        thorough="h_refused:0,0/1 h_refused:1,1/11 h_refused:8,8,0,1/11 h_refused:12,12,1,1/11 h_refused:32,32/11 h_refused:119,119,1/11",
        bounds="every pair of labels of up to 4 (thorough: 12) arbitrary bytes, and of labels of up to 129 (257) bytes by boundary lengths, with arbitrary keys"),
    "C24": dict(
        quick="h_frame:2/11 h_frame:3/11 h_touch:1,2,0/11 h_touch:2,2,2/11 h_bulk_frame:60/1",
        thorough="h_frame:4/11 h_frame:5/11 h_touch:2,2,2/11 h_touch:3,2,0/11 h_touch:2,3,0/11 h_bulk_frame:270/1@L",
        bounds="an arbitrary operation after up to 3 (thorough: 5) additions on arbitrary keywords; calls on 2 (3) arbitrary keywords with data and pointers of up to 90 bytes; any arithmetic progression among 60 (270) keywords"),
    "C25": dict(
        quick="h_derive:1,3/11 h_derive:2,4/11 h_derive:3,116/11 h_derive:2,2,110/11",
        thorough="h_derive:4,8/11 h_derive:8,118/11 h_derive:32,120/11 h_derive:3,3,118/11",
        bounds="two arbitrary seeds; inputs of up to 3 (thorough: 32) arbitrary bytes compared with inputs of up to 129 (1025) bytes; pairs of labels of up to 64 (257) bytes"),
    "C26": dict(
        quick="h_wipe:0/1 h_wipe:1/1",
        thorough="h_wipe:0/1 h_wipe:1/1",
        bounds="arbitrary non-zero seeds of both tables, dropped before and after a use"),
    "C27": dict(
        quick="h_conv:2/11 h_conv:3/11 h_text:3/11 h_bulk_conv:280/1",
        thorough="h_conv:8/11 h_conv:16/11 h_text:6/11 h_bulk_conv:520/1@L",
        bounds="pairs of byte strings of up to 3 (thorough: 16) arbitrary bytes, texts of up to 3 (6) bytes, pairs of tokens made of an arbitrary byte, every order of the sets; collections of 280 (520) elements; empty ones"),
    "C28": dict(
        quick="h_search_fault:3,1,2/11 h_search_fault:2,90/11 h_bulk_search_fault:60/11",
        thorough="h_search_fault:8,1,2/11 h_search_fault:4,200/11 h_bulk_search_fault:270/11@L",
        bounds="a database error, with or without effect, at any call of a search through up to 3 (thorough: 8) levels, of one or two keywords; 60 (270) keywords and as many targets"),
    "C29": dict(
        quick="h_drawn:0/11 h_drawn:1/11 h_drawn:2/11 h_drawn:3/11 h_drawn:4/11 h_drawn:5/11 h_keys:4/1 h_seeds:2,0/1 h_seeds:3,0,2/1 h_seeds:3,1,2/1 h_seeds:20,0/1 h_seeds:3,0/1@b",
        thorough="h_drawn:0/11 h_drawn:1/11 h_drawn:2/11 h_drawn:3/11 h_drawn:4/11 h_drawn:5/11 h_keys:40/1 h_seeds:4,0,2/1 h_seeds:4,1,2/1 h_seeds:140,0/1@L h_seeds:9,0/1@b",
        bounds="every pair of outputs of the random generator, for each kind of secret; 4 (thorough: 40) keys of two clients; seeds of up to 40 (280) chains made by two clients, in several calls, and compacted"),
    "C30": dict(
        quick="h_sifted:2,0/1 h_sifted:2,1/1 h_sifted:2,2/1 h_sifted:2,0,2/1 h_sifted:2,2,2/1 h_bulk_sifted:2,270/1@L h_bulk_sifted:10,20/1 h_bulk_sifted:5,2/1@b",
        thorough="h_sifted:3,0/1 h_sifted:3,1/1 h_sifted:3,2/1 h_sifted:3,0,2/1 h_bulk_sifted:2,400/1@L h_bulk_sifted:20,20/1@L h_bulk_sifted:9,3/1@b",
        bounds="2 (thorough: 3) arbitrary operations and a pointer on arbitrary keywords, any threshold and added datum as a filter, every order of the hash tables, every choice of compacted chains; 2 keywords of 270 (400) data and 10 (20) of 20, filtered by any of four periods"),
    "C31": dict(
        quick="h_restore:2,1,0/1 h_restore:2,1,1/1 h_restore:2,1,0,2/1 h_restore:2,1,1,2/1 h_restore:1,2,1/1 h_restore:3,1,1/1 h_bulk_restore:100,1/1 h_bulk_restore:3,40/1",
        thorough="h_restore:3,2,0/1 h_restore:3,2,1/1 h_restore:4,1,0/1 h_restore:3,1,1,2/1 h_bulk_restore:270,1/1@L h_bulk_restore:3,270/1@L",
        bounds="up to 3 (thorough: 4) arbitrary operations, save and restore, up to 2 others, a compaction at rate 0 or 1, every order of the lines; 100 (270) keywords; 3 of 40 (270) values"),
}
