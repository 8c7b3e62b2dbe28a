------------------------------ MODULE MC_Remote ------------------------------
(***************************************************************************)
(* The protocol of the remote functions: clients that try a call up to     *)
(* three times, each time on a new connection if the last one failed;      *)
(* connections that carry bytes in order and may be cut at any byte, or    *)
(* closed by either side; and a server that takes whole messages off each  *)
(* connection.  A message is a head, which tells its length, and a body:   *)
(* two bytes here, each of which says what it is a part of.                *)
(* Checked: what is seen of every client is what OgdlRemote's monitor      *)
(* allows, and every call returns.                                         *)
(* Closes = FALSE: the client goes on with a connection that failed.       *)
(* Whole = FALSE: what a read delivers is taken for a message.             *)
(* Both are expected to be rejected by the monitor.                        *)
(***************************************************************************)
EXTENDS OgdlRemote, TLC
CONSTANTS Clients, NCalls, Closes, Whole

\* cl: per client: state st (idle, dial, w1, w2: about to write the byte, r: waiting), call, left: tries, conn (0: none), got: bytes read
\* cn: the connections: owner, to, from: bytes under way, srv: bytes at the server, cut: nothing goes in any more
VARIABLES cl, cn, mon
vars == <<cl, cn, mon>>
Init == /\ cl = [x \in Clients |-> [st |-> "idle", call |-> 0, left |-> 0, conn |-> 0, got |-> <<>>]]
        /\ cn = <<>>
        /\ mon = [x \in Clients |-> MonInit(NCalls)]
See(x, e) == mon' = [mon EXCEPT ![x] = MonStep(@, e)]
Quiet == UNCHANGED mon
Byte(x, kind, part) == [call |-> cl[x].call, kind |-> kind, part |-> part]
MaxConn == 2 * NCalls * Tries

\* what is left of a connection that was cut
Dead(k) == IF k.cut /\ k.to = <<>> THEN [k EXCEPT !.srv = <<>>] ELSE k

Call(x) == /\ cl[x].st = "idle" /\ cl[x].call < NCalls
           /\ cl' = [cl EXCEPT ![x].call = @ + 1, ![x].left = Tries, ![x].st = "dial", ![x].got = <<>>]
           /\ See(x, [e |-> "call", i |-> cl[x].call + 1]) /\ UNCHANGED cn
Dial(x) == /\ cl[x].st = "dial" /\ Quiet
           /\ IF cl[x].conn # 0 THEN UNCHANGED cn /\ cl' = [cl EXCEPT ![x].st = "w1", ![x].got = <<>>]
              ELSE /\ cn' = Append(cn, [own |-> x, to |-> <<>>, from |-> <<>>, srv |-> <<>>, cut |-> FALSE])
                   /\ cl' = [cl EXCEPT ![x].conn = Len(cn) + 1, ![x].st = "w1", ![x].got = <<>>]
\* a byte written to a connection that is cut is lost, which the writer may or may not notice
Write(x) == /\ cl[x].st \in {"w1", "w2"}
            /\ LET k == cl[x].conn  p == IF cl[x].st = "w1" THEN 1 ELSE 2 IN
               /\ cn' = IF cn[k].cut THEN cn ELSE [cn EXCEPT ![k].to = Append(@, Byte(x, "q", p))]
               /\ IF p = 2 /\ ~cn[k].cut THEN See(x, [e |-> "req", i |-> cl[x].call]) ELSE Quiet
            /\ cl' = [cl EXCEPT ![x].st = IF @ = "w1" THEN "w2" ELSE "r"]
\* the try failed
Fail(x) == /\ cl[x].st \in {"w1", "w2", "r"}
           /\ LET last == cl[x].left = 1
                  conn == IF Closes THEN 0 ELSE IF cn[cl[x].conn].cut THEN 0 ELSE cl[x].conn
                  old == cn[cl[x].conn] IN
              /\ cl' = [cl EXCEPT ![x].left = @ - 1, ![x].conn = conn, ![x].st = IF last THEN "idle" ELSE "dial", ![x].got = <<>>]
              \* nobody will read what the server sends
              /\ cn' = IF conn = 0 THEN [cn EXCEPT ![cl[x].conn] = Dead([old EXCEPT !.cut = TRUE, !.from = <<>>])] ELSE cn
              /\ IF last THEN See(x, [e |-> "ret", i |-> cl[x].call, ok |-> FALSE, a |-> 0]) ELSE Quiet
\* the bytes of one message, in order
Message_(b, kind) == Len(b) = 2 /\ b[1].part = 1 /\ b[2].part = 2 /\ b[1].kind = kind /\ b[2].kind = kind /\ b[1].call = b[2].call
Read(x) == /\ cl[x].st = "r" /\ cn[cl[x].conn].from # <<>>
           /\ LET k == cl[x].conn
                  b == Append(cl[x].got, Head(cn[k].from))
                  done == Len(b) = 2 \/ ~Whole IN
              /\ cn' = [cn EXCEPT ![k].from = Tail(@)]
              /\ cl' = [cl EXCEPT ![x].got = IF done THEN <<>> ELSE b, ![x].st = IF done THEN "idle" ELSE @]
              /\ IF done THEN See(x, [e |-> "ret", i |-> cl[x].call, ok |-> TRUE, a |-> IF Message_(b, "a") THEN b[1].call ELSE 0]) ELSE Quiet
\* the server
Take(k) == /\ cn[k].to # <<>> /\ UNCHANGED cl
           /\ LET b == Append(cn[k].srv, Head(cn[k].to))
                  done == Len(b) = 2 \/ ~Whole
                  i == IF Message_(b, "q") THEN b[1].call ELSE 0
                  a == <<[call |-> i, kind |-> "a", part |-> 1], [call |-> i, kind |-> "a", part |-> 2]>> IN
              /\ cn' = [cn EXCEPT ![k] = Dead([@ EXCEPT !.to = Tail(@), !.srv = IF done THEN <<>> ELSE b, !.from = IF done /\ ~cn[k].cut THEN @ \o a ELSE @])]
              /\ IF done THEN See(cn[k].own, [e |-> "handle", i |-> i]) ELSE Quiet
\* the connection is cut: some of what is under way still arrives
Cut(k) == /\ ~cn[k].cut /\ UNCHANGED cl /\ Quiet
          /\ \E m \in 0 .. Len(cn[k].to), l \in 0 .. Len(cn[k].from) :
               cn' = [cn EXCEPT ![k] = Dead([@ EXCEPT !.to = SubSeq(@, 1, m), !.from = SubSeq(@, 1, l), !.cut = TRUE])]

Next == \/ \E x \in Clients : Call(x) \/ Dial(x) \/ Write(x) \/ Fail(x) \/ Read(x)
        \/ \E k \in DOMAIN cn : Take(k) \/ Cut(k)
Spec == Init /\ [][Next]_vars /\ \A x \in Clients : WF_vars(Dial(x)) /\ WF_vars(Write(x)) /\ WF_vars(Fail(x))

Seen == \A x \in Clients : mon[x].bad = ""
Bounded == Len(cn) <= MaxConn
Returns == \A x \in Clients : (cl[x].st # "idle") ~> (cl[x].st = "idle")
\* nothing is forbidden that makes calls useless: a witness that all calls can succeed
Idle(x) == cl[x].st = "idle" /\ cl[x].call = NCalls
=============================================================================
