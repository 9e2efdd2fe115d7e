-------------------------------- MODULE Wire --------------------------------
(* The encoding of every message and stored object.  Defs names the types; a
   byte sequence is read by Decode, which gives
     r   "ok", "bad" (the reader must refuse) or "odd" (not specified: a bool
         byte above 1, or an element twice in a set or map)
     p   position of the next byte
     f   the contents: its fields in order, numbers as bytes, containers led by
         their size, sets and maps sorted
   Numbers are little-endian.                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

I(n)    == [k |-> "int", n |-> n]           \* n bytes
Z       == [k |-> "bool"]
B       == [k |-> "buf"]                    \* 8 bytes of length, contents
St(a)   == [k |-> "struct", a |-> a]
Va(a)   == [k |-> "var", a |-> a]           \* 1 byte alternative, contents
O(t)    == [k |-> "opt", t |-> t]
L(t)    == [k |-> "list", t |-> t]
U(t)    == [k |-> "set", t |-> t]
M(t, v) == [k |-> "map", t |-> t, v |-> v]

Defs == [
  u8      |-> I(1),
  u32     |-> I(4),
  u64     |-> I(8),
  hash    |-> I(32),
  pubkey  |-> I(32),
  sig     |-> I(64),
  bool    |-> Z,
  buf     |-> B,
  nil     |-> St(<< >>),
  \* containers
  bools   |-> L("bool"),
  bufs    |-> L("buf"),
  hashes  |-> L("hash"),
  u8opt   |-> O("u8"),
  optopt  |-> O("u8opt"),
  u64set  |-> U("u64"),
  hashset |-> U("hash"),
  u8map   |-> M("u8", "buf"),
  mix     |-> Va(<<"u64", "buf", "optopt", "nil", "u8map">>),
  mixes   |-> L("mix"),
  mixpair |-> St(<<"mix", "bools">>),
  \* transactions
  out_point |-> St(<<"hash", "u64">>),
  output    |-> St(<<"hash", "u64">>),
  input     |-> St(<<"out_point", "output">>),
  inputs    |-> L("input"),
  outputs   |-> L("output"),
  full_tx   |-> St(<<"inputs", "outputs", "bufs">>),
  attest    |-> St(<<"pubkey", "sig">>),
  attests   |-> M("pubkey", "sig"),
  compact_tx |-> St(<<"hash", "hashes", "hashes", "attests">>),
  ctxs      |-> L("compact_tx"),
  \* sentinel
  in_err    |-> St(<<"u8", "u8opt", "u64">>),
  pos_err   |-> St(<<"u8", "u64">>),
  tx_err    |-> Va(<<"in_err", "pos_err", "pos_err", "u8">>),
  tx_erropt |-> O("tx_err"),
  exec_resp |-> St(<<"u32", "tx_erropt">>),
  sentinel_request  |-> Va(<<"full_tx", "full_tx">>),
  sentinel_response |-> Va(<<"exec_resp", "attest">>),
  \* two-phase commit
  lshard_params   |-> Va(<<"ctxs", "bools", "nil">>),
  lshard_request  |-> St(<<"hash", "lshard_params">>),
  lshard_response |-> Va(<<"bools", "nil", "nil">>),
  status_request  |-> Va(<<"hash", "hash">>),
  \* atomizer
  block         |-> St(<<"u64", "ctxs">>),
  blockopt      |-> O("block"),
  tx_notify     |-> St(<<"u64", "compact_tx", "u64set">>),
  agg_tx        |-> St(<<"u64", "compact_tx">>),
  agg_req       |-> L("agg_tx"),
  atomizer_request |-> Va(<<"tx_notify", "u64", "u64">>),
  raft_request  |-> Va(<<"agg_req", "nil", "u64", "u64">>),
  werr_info     |-> Va(<<"nil", "hashes", "nil", "nil", "hashset">>),
  werr          |-> St(<<"hash", "werr_info">>),
  werrs         |-> L("werr"),
  block_errs    |-> St(<<"block", "werrs">>),
  raft_response |-> Va(<<"block_errs", "block", "werrs">>),
  \* watchtower
  asks        |-> M("hash", "hashes"),
  wt_request  |-> Va(<<"asks", "nil">>),
  wt_state    |-> St(<<"u32", "u64", "hash">>),
  wt_states   |-> L("wt_state"),
  wt_answers  |-> M("hash", "wt_states"),
  wt_response |-> Va(<<"wt_answers", "u64">>),
  \* programmable ledger
  updates    |-> M("buf", "buf"),
  try_lock   |-> St(<<"u64", "u64", "buf", "u8", "bool">>),
  prepare    |-> St(<<"u64", "updates", "u64">>),
  rls_request |-> Va(<<"try_lock", "prepare", "u64", "u64", "u64", "u64">>),
  wounded    |-> St(<<"u64", "buf">>),
  woundedopt |-> O("wounded"),
  shard_error |-> St(<<"u8", "woundedopt">>),
  serropt    |-> O("shard_error"),
  lock_ret   |-> Va(<<"buf", "shard_error">>),
  ticket_map |-> M("u64", "u8"),
  tickets_ret |-> Va(<<"ticket_map", "u8">>),
  rls_response |-> Va(<<"lock_ret", "serropt", "tickets_ret">>),
  rprepare   |-> St(<<"u64", "u64", "updates">>),
  repl_request |-> Va(<<"rprepare", "u64", "u64", "nil">>),
  rticket    |-> St(<<"u8", "u64", "updates">>),
  rtickets   |-> M("u64", "rticket"),
  rtickets_ret |-> Va(<<"rtickets", "u8">>),
  repl_response |-> Va(<<"u8opt", "rtickets_ret">>),
  agent_request |-> St(<<"buf", "buf", "bool">>),
  agent_response |-> Va(<<"updates", "u8">>),
  trange     |-> St(<<"u64", "u64">>),
  ticket_request |-> Va(<<"nil">>),
  ticket_response |-> Va(<<"trange", "u8">>),
  \* remote calls
  rpc_lshard_request |-> St(<<"u64", "lshard_request">>),
  lresp_opt |-> O("lshard_response"),
  rpc_lshard_response |-> St(<<"u64", "lresp_opt">>),
  tresp_opt |-> O("ticket_response"),
  rpc_ticket_response |-> St(<<"u64", "tresp_opt">>)
]

----------------------------------------------------------------------------
Bad(p) == [r |-> "bad", p |-> p, f |-> << >>]
Odd(p) == [r |-> "odd", p |-> p, f |-> << >>]
Ok(p, f) == [r |-> "ok", p |-> p, f |-> f]

\* A length field at p; a length above `most` cannot be filled.
Len8(b, p, most) ==
  IF p + 7 > Len(b) THEN most + 1
  ELSE IF \E i \in (p + 3)..(p + 7) : b[i] # 0 THEN most + 1
  ELSE b[p] + 256 * b[p + 1] + 65536 * b[p + 2]
Rest(b, p) == Len(b) + 1 - p

Less(x, y) ==
  LET n == IF Len(x) < Len(y) THEN Len(x) ELSE Len(y)
      D == { i \in 1..n : x[i] # y[i] }
  IN IF D = {} THEN Len(x) < Len(y)
     ELSE LET i == CHOOSE i \in D : \A m \in D : i <= m IN x[i] < y[i]
RECURSIVE Flat(_)
Flat(q) == IF q = << >> THEN << >> ELSE Head(q) \o Flat(Tail(q))
Sorted(q) == Flat(SortSeq(q, Less))

RECURSIVE Decode(_, _, _), DFields(_, _, _, _), DItems(_, _, _, _)
\* Fields a in order.
DFields(a, b, p, f) ==
  IF a = << >> THEN Ok(p, f)
  ELSE LET d == Decode(Head(a), b, p) IN
       IF d.r # "ok" THEN d ELSE DFields(Tail(a), b, d.p, f \o d.f)
\* q.n more items of a list, set or map; q.g keys and q.f contents so far.
DItems(D, b, p, q) ==
  IF q.n = 0 THEN [r |-> "ok", p |-> p, q |-> q]
  ELSE LET d == Decode(D.t, b, p)
           v == IF D.k = "map" THEN Decode(D.v, b, d.p) ELSE Ok(d.p, << >>)
       IN IF d.r # "ok" THEN d ELSE IF v.r # "ok" THEN v
          ELSE DItems(D, b, v.p, [n |-> q.n - 1, g |-> Append(q.g, d.f), f |-> Append(q.f, d.f \o v.f)])
Decode(t, b, p) ==
  LET D == Defs[t] IN
  CASE D.k = "int" -> IF Rest(b, p) < D.n THEN Bad(p) ELSE Ok(p + D.n, SubSeq(b, p, p + D.n - 1))
    [] D.k = "bool" -> IF Rest(b, p) < 1 THEN Bad(p) ELSE IF b[p] > 1 THEN Odd(p) ELSE Ok(p + 1, <<b[p]>>)
    [] D.k = "buf" ->
         LET n == Len8(b, p, Rest(b, p)) IN
         IF Rest(b, p) < 8 + n THEN Bad(p) ELSE Ok(p + 8 + n, <<n>> \o SubSeq(b, p + 8, p + 7 + n))
    [] D.k = "struct" -> DFields(D.a, b, p, << >>)
    [] D.k = "var" ->
         IF Rest(b, p) < 1 THEN Bad(p) ELSE IF b[p] >= Len(D.a) THEN Bad(p)
         ELSE LET d == Decode(D.a[b[p] + 1], b, p + 1) IN
              IF d.r # "ok" THEN d ELSE Ok(d.p, <<b[p]>> \o d.f)
    [] D.k = "opt" ->
         IF Rest(b, p) < 1 THEN Bad(p) ELSE IF b[p] > 1 THEN Odd(p) ELSE IF b[p] = 0 THEN Ok(p + 1, <<0>>)
         ELSE LET d == Decode(D.t, b, p + 1) IN
              IF d.r # "ok" THEN d ELSE Ok(d.p, <<1>> \o d.f)
    [] D.k \in {"list", "set", "map"} ->
         LET R == Rest(b, p)
             n == Len8(b, p, R)
             \* every item has a byte: more than R of them cannot be read
             d == DItems(D, b, p + 8, [n |-> IF n > R THEN R ELSE n, g |-> << >>, f |-> << >>])
         IN IF R < 8 THEN Bad(p)
            ELSE IF d.r # "ok" THEN d
            ELSE IF D.k = "list" THEN Ok(d.p, <<n>> \o Flat(d.q.f))
            ELSE IF \E i, j \in DOMAIN d.q.g : i # j /\ d.q.g[i] = d.q.g[j] THEN Odd(p)
            ELSE Ok(d.p, <<n>> \o Sorted(d.q.f))
=============================================================================
