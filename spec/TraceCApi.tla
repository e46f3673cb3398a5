------------------------------ MODULE TraceCApi ------------------------------
(* Recorded calls of the C interface.  Every call tells whether it returned  *)
(* its failure value (fail), whether the thread's message is non-empty after *)
(* it (lem), whether the message was untouched since the thread's last call  *)
(* (kept), what escaped it (esc), and whether the message holds the words of *)
(* the plug-in (says).                                                       *)
EXTENDS CApi, TraceUtil
VARIABLES l, nets, file, ob, mem, prg, pm, cx
vars == <<l, nets, file, ob, mem, prg, pm, cx>>
E == Trace[l]
Init == /\ l = 1 /\ nets = <<>> /\ file = <<>> /\ ob = <<>> /\ mem = <<>> /\ prg = <<>>
        /\ pm = [make |-> "ok", init |-> "ok", infer |-> "ok", run |-> "ok"] /\ cx = <<0, 0, 0>>

H == E.h
A(i) == E.a[i]
G == E.hs[1]
Ob == ob[H]
Nul == H = 0
Pr(b) == prg[ob[b].p]                     \* the program of a session or program handle
HasP(b) == ob[b].p # 0
Net(p) == nets[p.net]
Known(p) == p.net # 0
X(ok, why) == [x |-> IF ok THEN "ok" ELSE "fail", says |-> why]
Ok == [x |-> "ok", says |-> FALSE]
No == [x |-> "fail", says |-> FALSE]
Either == [x |-> "any", says |-> FALSE]
Dev == E.n = "cpu"
\* what making the operators of network n gives
Making(n) == IF n = 0 THEN Either ELSE X(~MakeFails(pm, nets[n]), MakeSpeaks(pm, nets[n]))
FileNet(f) == IF file[f].k = "net" THEN file[f].net ELSE 0
Input(i, b) == i >= 0 /\ i < Len(ob[b].ins)
Value(h) == Read(mem, ob[h].f[1])
Running(b) == LET p == Pr(b) n == Net(p) ins == ob[b].ins IN
  IF ~Known(p) THEN Either
  ELSE IF \E i \in 1 .. Len(ins) : ins[i].t \in {"unset", "?"} THEN Either
  ELSE IF \E i \in 1 .. Len(ins) : p.filt[i] # NoFilter /\ ~FilterOk(p.filt[i], ins[i]) THEN No
  ELSE IF \E i \in 1 .. Len(ins) : p.filt[i] # NoFilter /\ (Prod(ins[i].s) = 0 \/ Head(p.filt[i]) # "to_float" \/ ins[i].t = "char8") THEN Either
  ELSE X(~((n.plain \/ n.ex) /\ Fails(pm.run)), Speaks(pm.run))
\* the kind of plug-in with a name
ExNode(n, x) == x = "y2" \/ ~n.plain \/ (x = "y1" /\ Len(n.src) = 1)
SetParam(p) == IF ~Known(p) THEN Either
               ELSE IF E.n \notin Plugs(Net(p)) THEN (IF E.n \in {"y1", "y2", "m"} THEN Either ELSE Ok)
               ELSE IF ExNode(Net(p), E.n) THEN X(~Fails(pm.init), Speaks(pm.init))
               ELSE X(~Throws(pm.init), Speaks(pm.init))
FPlain(ms) == [t |-> E.o[1].t, s |-> E.o[1].s, m |-> ms, o |-> 0]

\* plug-ins are made and set up in the context of a session: without one it may be refused
Bare(p, x) == IF cx[E.t] = 0 /\ x.x = "ok" /\ (Net(p).plain \/ Net(p).ex) THEN Either ELSE [x EXCEPT !.says = IF cx[E.t] = 0 THEN FALSE ELSE @]
Expect ==
  CASE E.n = "nulltype" -> Either                             \* a device without a type
    [] E.fn = "new" -> IF E.b THEN X(E.n \in Types /\ \A i \in 1 .. Len(E.a) : A(i) >= 0, FALSE) ELSE X(\A i \in 1 .. Len(E.a) : A(i) >= 0, FALSE)
    [] E.fn = "new_in_flow" -> X(cx[E.t] # 0 /\ \A i \in 1 .. Len(E.a) : A(i) >= 0, FALSE)
    [] E.fn \in {"shape", "dtype", "data", "packed", "shape_size", "fields_count", "clone", "sync", "program_clone", "input_count", "output_count"} /\ Nul -> No
    [] E.fn \in {"shape", "dtype", "data", "packed", "shape_size", "fields_count", "clone", "sync"} -> Ok
    [] E.fn = "cast" -> IF Nul \/ E.n = "wrong" THEN No ELSE IF Value(H).t = "?" THEN Either ELSE Ok
    [] E.fn = "reshape" -> IF Nul THEN No ELSE X(Reshape(Ob.f[1].s, E.a) # <<-1>>, FALSE)
    [] E.fn = "field" -> IF Nul THEN No ELSE X(A(1) >= 0 /\ A(1) < Len(Ob.f), FALSE)
    [] E.fn = "pack" -> X(~E.b /\ \A i \in 1 .. Len(E.hs) : E.hs[i] # 0, FALSE)
    [] E.fn = "slice" -> IF Nul THEN No ELSE LET s == Ob.f[1].s IN X(Len(s) > 0 /\ A(1) >= 0 /\ (IF Len(s) > 0 THEN A(1) < s[1] ELSE TRUE), FALSE)
    [] E.fn = "slice2" -> IF Nul THEN No ELSE LET s == Ob.f[1].s IN X(Len(s) > 0 /\ A(1) >= 0 /\ A(1) < A(2) /\ (IF Len(s) > 0 THEN A(2) <= s[1] ELSE TRUE), FALSE)
    [] E.fn = "view" -> IF Nul THEN No ELSE X(A(1) = 0 \/ cx[E.t] # 0, FALSE)
    [] E.fn = "save" -> IF Nul \/ E.b THEN No ELSE IF file[A(1)].k = "ten" THEN Ok ELSE IF file[A(1)].k = "noway" THEN No ELSE Either
    [] E.fn = "load" -> IF E.b THEN No ELSE IF file[A(1)].k \in {"bad", "noway"} THEN (IF A(1) \in {Len(nets) + 1, Len(nets) + 2} THEN Either ELSE No) ELSE X(file[A(1)].v # <<>>, FALSE)
    [] E.fn = "module" -> X(FileNet(A(1)) # 0 /\ A(2) = 0 /\ E.n = "good", FALSE)
    [] E.fn = "module_stream" -> IF E.n = "nullrewind" THEN Either ELSE X(FileNet(A(1)) # 0 /\ A(2) = 0 /\ E.n = "good", FALSE)
    [] E.fn = "fusion" -> IF Nul \/ G = 0 THEN No
                          ELSE IF ob[H].net = 0 \/ ob[G].net = 0 THEN Either
                          ELSE IF H = G THEN Either
                          ELSE X(/\ A(1) < Len(nets[ob[H].net].src) /\ (A(1) < 0 => Len(nets[ob[H].net].src) = 1)
                                  /\ A(2) < Len(nets[ob[G].net].ins) /\ (A(2) < 0 => Len(nets[ob[G].net].ins) = 1), FALSE)
    [] E.fn = "compile" -> IF Nul \/ ~Dev \/ E.b \/ cx[E.t] = 0 THEN No ELSE Making(Ob.net)
    [] E.fn = "bench_load" -> IF Nul \/ ~Dev \/ E.b THEN No ELSE Making(Ob.net)
    [] E.fn = "bench_compile" -> IF Nul \/ G = 0 \/ E.b THEN No ELSE Making(ob[G].net)
    [] E.fn = "program_clone" -> IF Nul THEN No ELSE Bare(Pr(H), Making(Pr(H).net))
    [] E.fn \in {"input_count", "output_count"} -> Ok
    [] E.fn \in {"bench_new", "filter_new"} -> X(Dev \/ E.n = "null", FALSE)
    [] E.fn = "bench_clone" -> IF Nul THEN No ELSE IF HasP(H) THEN Making(Pr(H).net) ELSE Ok
    [] E.fn = "setup" -> X(~Nul /\ G # 0, FALSE)
    [] E.fn \in {"setup_context", "bench_inputs", "bench_outputs", "threads", "summary"} -> X(~Nul, FALSE)
    [] E.fn = "cpu_mode" -> No
    [] E.fn = "input" -> IF Nul \/ G = 0 THEN No ELSE X(Input(A(1), H), FALSE)
    [] E.fn = "input_by_name" -> IF Nul \/ G = 0 \/ E.n = "null" THEN No ELSE IF ~HasP(H) THEN No ELSE IF ~Known(Pr(H)) THEN Either ELSE X(E.n \in Rng(Net(Pr(H)).ins), FALSE)
    [] E.fn = "run" -> IF Nul THEN No ELSE IF ~HasP(H) THEN No ELSE Running(H)
    [] E.fn = "hook" -> IF Nul \/ E.b THEN No ELSE IF ~HasP(H) THEN No ELSE Running(H)
    [] E.fn = "output" -> IF Nul \/ G = 0 THEN No ELSE X(A(1) >= 0 /\ A(1) < Len(Ob.outs), FALSE)
    [] E.fn = "output_by_name" -> IF Nul \/ G = 0 \/ E.n = "null" THEN No
                                  ELSE IF Ob.hook.on = "unk" THEN Either
                                  ELSE IF Ob.hook.on = "yes" /\ E.n \in DOMAIN Ob.hook.v THEN Ok
                                  ELSE IF ~HasP(H) THEN No ELSE IF ~Known(Pr(H)) THEN Either
                                  ELSE IF Ob.hook.on = "yes" /\ E.n \in Rng(Net(Pr(H)).ins) THEN Either
                                  ELSE X(E.n \in Rng(Outs(Net(Pr(H)))), FALSE)
    [] E.fn \in {"bench_set_param", "program_set_param"} -> IF Nul \/ E.b \/ E.n = "null" THEN No ELSE IF ~HasP(H) THEN Ok ELSE IF E.fn = "program_set_param" THEN Bare(Pr(H), SetParam(Pr(H))) ELSE SetParam(Pr(H))
    [] E.fn = "bind" -> IF Nul \/ G = 0 THEN No ELSE IF ~HasP(H) THEN No ELSE IF ~Known(Pr(H)) THEN Either ELSE X(A(1) >= 0 /\ A(1) < InCount(nets, Pr(H)), FALSE)
    [] E.fn = "bind_by_name" -> IF Nul \/ G = 0 \/ E.n = "null" THEN No ELSE IF ~HasP(H) THEN No ELSE IF ~Known(Pr(H)) THEN Either ELSE X(E.n \in Rng(Net(Pr(H)).ins), FALSE)
    [] E.fn \in {"to_float", "scale2", "filter_clear"} -> X(~Nul, FALSE)
    [] E.fn = "filter_compile" -> IF Nul THEN No ELSE IF cx[E.t] = 0 THEN Either ELSE Ok
    [] E.fn = "filter_run" -> IF Nul \/ G = 0 THEN No ELSE IF Ob.steps = <<>> THEN Either ELSE IF cx[E.t] = 0 THEN No ELSE IF Ob.steps = <<>> \/ Value(G).t = "?" THEN Either ELSE IF Head(Ob.steps) = "to_float" /\ Value(G).t # "char8" THEN Ok ELSE Either
    [] E.fn = "filter_module" -> IF Nul THEN No ELSE Either
    [] E.fn = "filter_null" -> No
    [] E.fn = "it_cast" /\ ~Nul /\ cx[E.t] = 0 /\ Value(H).t \in {E.n, "?"} -> Either
    [] E.fn \in {"it_transpose", "it_cast", "it_sigmoid", "it_softmax", "it_concat"} ->
         IF (E.fn # "it_concat" /\ Nul) \/ (E.fn = "it_concat" /\ \E i \in 1 .. Len(E.hs) : E.hs[i] = 0) \/ E.b \/ cx[E.t] = 0 THEN No
         ELSE IF Value(IF Nul THEN G ELSE H).t = "?" THEN Either
         ELSE IF E.fn \in {"it_transpose", "it_concat"} /\ ob[IF Nul THEN G ELSE H].f[1].t # "char8" THEN Ok ELSE IF E.fn \in {"it_sigmoid", "it_softmax"} THEN Ok ELSE Either
    [] E.fn \in {"free_T", "free_M", "free_P", "free_B", "free_F"} -> Ok
    [] E.fn = "bad_call" -> No
    [] E.fn = "set_message" -> X(E.n # "some", FALSE)

\* calls whose failure value is also a good answer
Unclear == {"shape", "data", "dtype", "shape_size", "packed", "fields_count", "input_count", "output_count", "bench_inputs", "bench_outputs"}
Heard == /\ E.esc = "" /\ E.kept
         /\ IF E.fn \in Unclear THEN E.lem => E.fail ELSE E.lem = E.fail
         /\ CASE Expect.x = "ok" -> ~E.lem [] Expect.x = "fail" -> E.lem /\ E.fail /\ (Expect.says => E.says) [] OTHER -> TRUE

\* what a tensor call is to give, as values
Fresh1(v) == <<v>>
Values ==
  CASE E.fn \in {"new", "new_in_flow"} -> <<[t |-> E.n, s |-> E.a, d |-> E.d]>>
    [] E.fn = "cast" -> <<[Value(H) EXCEPT !.t = IF Value(H).t = "?" THEN "?" ELSE E.n]>>
    [] E.fn \in {"clone", "view"} -> Fields(mem, Ob)
    [] E.fn = "load" -> IF file[A(1)].k = "ten" THEN file[A(1)].v ELSE E.o
    [] E.fn = "it_transpose" -> LET x == Value(H) IN IF x.t = "?" THEN <<Foggy>> ELSE <<Gen(x.t, Reverse(x.s), LAMBDA c : At(x, Reverse(c)))>>
    [] E.fn = "it_concat" -> LET x == Value(G) IN IF x.t = "?" THEN <<Foggy>> ELSE <<[t |-> x.t, s |-> <<2 * x.s[1]>> \o Tail(x.s), d |-> x.d \o x.d]>>
    [] E.fn = "it_cast" -> IF Value(H).t = "?" THEN <<Foggy>> ELSE <<[Value(H) EXCEPT !.t = E.n]>>
    [] E.fn = "filter_run" -> IF Expect.x = "ok" THEN <<Filtered(Ob.steps, Value(G))>> ELSE <<Foggy>>
    [] E.fn = "output" -> <<Ob.outs[A(1) + 1]>>
    [] E.fn = "output_by_name" -> IF Ob.hook.on = "yes" /\ E.n \in DOMAIN Ob.hook.v THEN <<Ob.hook.v[E.n]>>
                                  ELSE IF Ob.hook.on = "unk" \/ ~Known(Pr(H)) \/ E.n \notin Rng(Outs(Net(Pr(H)))) THEN <<Foggy>> ELSE <<Ob.outs[Where(Outs(Net(Pr(H))), E.n)]>>
    [] OTHER -> <<Foggy>>
\* fields looking at memory there already is
Views == CASE E.fn = "reshape" -> <<[Ob.f[1] EXCEPT !.s = Reshape(Ob.f[1].s, E.a)]>>
           [] E.fn = "field" -> <<Ob.f[A(1) + 1]>>
           [] E.fn = "pack" -> [i \in 1 .. Len(E.hs) |-> ob[E.hs[i]].f[1]]
           [] E.fn = "slice" -> LET f == Ob.f[1] IN <<[f EXCEPT !.s = Tail(f.s), !.o = f.o + (A(1) * Prod(Tail(f.s)))]>>
           [] E.fn = "slice2" -> LET f == Ob.f[1] IN <<[f EXCEPT !.s = <<A(2) - A(1)>> \o Tail(f.s), !.o = f.o + (A(1) * Prod(Tail(f.s)))]>>
Viewing == {"reshape", "field", "pack", "slice", "slice2"}
Making1 == {"new", "new_in_flow", "cast", "clone", "view", "load", "it_transpose", "it_concat", "it_cast", "it_sigmoid", "it_softmax", "filter_run"}
Giving == {"output", "output_by_name"}
Ints == CASE E.fn = "shape" -> Ob.f[1].s
          [] E.fn = "shape_size" -> <<Len(Ob.f[1].s)>>
          [] E.fn = "packed" -> <<IF Len(Ob.f) > 1 THEN 1 ELSE 0>>
          [] E.fn = "fields_count" -> <<Len(Ob.f)>>
          [] E.fn = "input_count" -> IF Known(Pr(H)) THEN <<InCount(nets, Pr(H))>> ELSE E.i
          [] E.fn = "output_count" -> IF Known(Pr(H)) THEN <<OutCount(nets, Pr(H))>> ELSE E.i
          [] E.fn = "bench_inputs" -> <<Len(Ob.ins)>>
          [] E.fn = "bench_outputs" -> <<Len(Ob.outs)>>
          [] E.fn = "summary" -> <<1>>
          [] OTHER -> E.i
Right == IF E.lem THEN TRUE
         ELSE /\ (E.fn \in Making1 \cup Giving => AllLike(Values, E.o))
              /\ (E.fn \in Viewing => AllLike([i \in 1 .. Len(Views) |-> Read(mem, Views[i])], E.o))
              /\ (E.fn = "data" => AllLike(<<Value(H)>>, E.o))
              /\ (E.fn = "dtype" /\ Ob.f[1].m # 0 => E.o[1].t = Ob.f[1].t)
              /\ (E.fn \in {"shape", "shape_size", "packed", "fields_count"} => E.i = Ints)
              /\ (E.fn \in {"input_count", "output_count", "bench_inputs", "bench_outputs", "summary"} => E.i = Ints)
Say(w, ok) == IF ok THEN TRUE ELSE PrintT(<<"WHY", w>>) /\ FALSE
InferFails == Fails(pm.make) \/ (IF E.op = "vf_plug" THEN Throws(pm.init) ELSE Fails(pm.init)) \/ Fails(pm.infer)
Obs == CASE E.ev = "call" -> /\ Say(<<E.fn, Expect>>, Heard) /\ Say(<<E.fn, "value">>, Right)
         [] E.ev = "infer" -> IF InferFails THEN E.err # ""
                              ELSE IF Parse(E.fmt) = <<>> THEN E.err = "ts"
                              ELSE IF Parse(E.fmt)[2] # <<>> THEN (E.err = "" => E.got = Parse(E.fmt)[1])
                              ELSE E.err = "" /\ E.got = Parse(E.fmt)[1]
         [] E.ev = "storm" -> E.bad = 0
         [] OTHER -> TRUE

------------------------------------------------------------------------------
Keep1(xs) == UNCHANGED xs
NewFields(k) == [i \in 1 .. Len(E.o) |-> [t |-> E.o[i].t, s |-> E.o[i].s, m |-> IF E.fn \in {"it_sigmoid", "it_softmax"} THEN 0 ELSE (l * 8) + i, o |-> 0]]
NewMem == [x \in DOMAIN mem \cup {(l * 8) + i : i \in 1 .. Len(E.o)} |-> IF x \in DOMAIN mem THEN mem[x] ELSE E.o[x - (l * 8)].d]
Resized(q, n, fill) == [i \in 1 .. n |-> IF i <= Len(q) THEN q[i] ELSE fill]
Bench(p, net) == [k |-> "B", p |-> p, ins |-> IF net = 0 THEN <<>> ELSE [i \in 1 .. Len(nets[net].ins) |-> Unset], outs |-> IF net = 0 THEN <<>> ELSE [i \in 1 .. Len(nets[net].src) |-> Foggy], hook |-> [on |-> "no", v |-> <<>>]]
\* programs of networks nothing is known of have as many slots as they have
Opaque(net, b) == IF net # 0 THEN b ELSE [b EXCEPT !.hook = [on |-> "unk", v |-> <<>>]]
ClonedP(p) == p
HookNames == LET p == Pr(H) n == Net(p) IN Rng(E.ns) \cap Plugs(n)
RanOuts(b) == LET p == Pr(b) n == Net(p) IN
  IF ~Known(p) \/ Expect.x # "ok" THEN [j \in 1 .. Len(ob[b].outs) |-> Foggy] ELSE [j \in 1 .. Len(n.src) |-> Output(n, p, ob[b].ins, j)]
Hooked == IF ~Known(Pr(H)) \/ Expect.x # "ok" THEN [on |-> "unk", v |-> <<>>]
          ELSE [on |-> "yes", v |-> [x \in HookNames |-> Inner(Net(Pr(H)), Pr(H), Ob.ins, x)]]
Slot == IF E.fn \in {"input_by_name", "bind_by_name"} THEN Where(Net(Pr(H)).ins, E.n) ELSE A(1) + 1
Call ==
  IF E.lem THEN
       CASE E.fn \in {"run", "hook"} /\ ~Nul -> ob' = [ob EXCEPT ![H] = [Ob EXCEPT !.hook = [on |-> "unk", v |-> <<>>]]] /\ UNCHANGED <<mem, prg, cx, file>>
         [] E.fn \in {"bench_set_param", "program_set_param"} /\ ~Nul -> (IF HasP(H) THEN (IF Known(Pr(H)) /\ E.n \in Plugs(Net(Pr(H))) THEN prg' = [prg EXCEPT ![Ob.p].k[E.n] = -1] ELSE prg' = prg) ELSE prg' = prg) /\ UNCHANGED <<ob, mem, cx, file>>
         [] OTHER -> UNCHANGED <<ob, mem, prg, cx, file>>
  ELSE CASE E.fn \in Making1 -> ob' = Put(ob, E.r, [k |-> "T", f |-> NewFields(0)]) /\ mem' = NewMem /\ UNCHANGED <<prg, cx, file>>
         [] E.fn \in Viewing -> ob' = Put(ob, E.r, [k |-> "T", f |-> Views]) /\ UNCHANGED <<mem, prg, cx, file>>
         [] E.fn \in Giving -> ob' = [ob EXCEPT ![G] = [k |-> "T", f |-> NewFields(0)]] /\ mem' = NewMem /\ UNCHANGED <<prg, cx, file>>
         [] E.fn = "save" -> file' = [file EXCEPT ![A(1)].v = Fields(mem, Ob)] /\ UNCHANGED <<ob, mem, prg, cx>>
         [] E.fn \in {"module", "module_stream"} -> ob' = Put(ob, E.r, [k |-> "M", net |-> FileNet(A(1))]) /\ UNCHANGED <<mem, prg, cx, file>>
         [] E.fn \in {"fusion", "filter_module"} -> ob' = Put(ob, E.r, [k |-> "M", net |-> 0]) /\ UNCHANGED <<mem, prg, cx, file>>
         [] E.fn \in {"compile", "bench_compile"} -> LET n == ob[IF E.fn = "compile" THEN H ELSE G].net IN ob' = Put(ob, E.r, [k |-> "P", p |-> E.r]) /\ prg' = Put(prg, E.r, Fresh(nets, n)) /\ UNCHANGED <<mem, cx, file>>
         [] E.fn = "program_clone" -> ob' = Put(ob, E.r, [k |-> "P", p |-> E.r]) /\ prg' = Put(prg, E.r, Pr(H)) /\ UNCHANGED <<mem, cx, file>>
         [] E.fn = "bench_load" -> ob' = Put(ob, E.r, Opaque(Ob.net, Bench(E.r, Ob.net))) /\ prg' = Put(prg, E.r, Fresh(nets, Ob.net)) /\ UNCHANGED <<mem, cx, file>>
         [] E.fn = "bench_new" -> ob' = Put(ob, E.r, Bench(0, 0)) /\ UNCHANGED <<mem, prg, cx, file>>
         [] E.fn = "bench_clone" -> ob' = Put(ob, E.r, IF HasP(H) THEN [Opaque(Pr(H).net, Bench(E.r, Pr(H).net)) EXCEPT !.ins = [i \in 1 .. Len(Ob.ins) |-> Unset], !.outs = [i \in 1 .. Len(Ob.outs) |-> Foggy]] ELSE Bench(0, 0))
                                    /\ (IF HasP(H) THEN prg' = Put(prg, E.r, Pr(H)) ELSE prg' = prg) /\ UNCHANGED <<mem, cx, file>>
         [] E.fn = "setup" -> LET p == Pr(G) IN ob' = [ob EXCEPT ![H] = [Ob EXCEPT !.p = ob[G].p, !.ins = IF Known(p) THEN Resized(@, InCount(nets, p), Unset) ELSE @, !.outs = IF Known(p) THEN Resized(@, OutCount(nets, p), Foggy) ELSE @,
                                                                               !.hook = [on |-> IF Known(p) THEN "no" ELSE "unk", v |-> <<>>]]] /\ UNCHANGED <<mem, prg, cx, file>>
         [] E.fn = "setup_context" -> cx' = [cx EXCEPT ![E.t] = H] /\ UNCHANGED <<ob, mem, prg, file>>
         [] E.fn \in {"input", "input_by_name"} -> (IF E.fn = "input" \/ Known(Pr(H)) THEN ob' = [ob EXCEPT ![H].ins[Slot] = Value(G)] ELSE ob' = ob) /\ UNCHANGED <<mem, prg, cx, file>>
         [] E.fn = "run" -> ob' = [ob EXCEPT ![H] = [Ob EXCEPT !.outs = RanOuts(H), !.hook = [on |-> IF Known(Pr(H)) THEN "no" ELSE "unk", v |-> <<>>]]] /\ UNCHANGED <<mem, prg, cx, file>>
         [] E.fn = "hook" -> ob' = [ob EXCEPT ![H] = [Ob EXCEPT !.outs = RanOuts(H), !.hook = Hooked]] /\ UNCHANGED <<mem, prg, cx, file>>
         [] E.fn \in {"bench_set_param", "program_set_param"} -> (IF HasP(H) THEN (IF Known(Pr(H)) /\ E.n \in Plugs(Net(Pr(H))) THEN prg' = [prg EXCEPT ![Ob.p].k[E.n] = A(1)] ELSE prg' = prg) ELSE prg' = prg) /\ UNCHANGED <<ob, mem, cx, file>>
         [] E.fn \in {"bind", "bind_by_name"} -> (IF Known(Pr(H)) THEN prg' = [prg EXCEPT ![Ob.p].filt[Slot] = ob[G].steps] ELSE prg' = prg) /\ UNCHANGED <<ob, mem, cx, file>>
         [] E.fn = "filter_new" -> ob' = Put(ob, E.r, [k |-> "F", steps |-> <<>>]) /\ UNCHANGED <<mem, prg, cx, file>>
         [] E.fn \in {"to_float", "scale2"} -> ob' = [ob EXCEPT ![H].steps = Append(@, E.fn)] /\ UNCHANGED <<mem, prg, cx, file>>
         [] E.fn = "filter_clear" -> ob' = [ob EXCEPT ![H].steps = <<>>] /\ UNCHANGED <<mem, prg, cx, file>>
         [] E.fn \in {"free_T", "free_M", "free_P", "free_B", "free_F"} /\ ~Nul -> ob' = Without(ob, H) /\ UNCHANGED <<mem, prg, cx, file>>
         [] OTHER -> UNCHANGED <<ob, mem, prg, cx, file>>
Body == CASE E.ev = "plug" -> pm' = [make |-> E.make, init |-> E.init, infer |-> E.infer, run |-> E.run] /\ UNCHANGED <<nets, file, ob, mem, prg, cx>>
          [] E.ev = "poke" -> (LET f == ob[E.h].f[1] IN mem' = [mem EXCEPT ![f.m][f.o + E.i + 1] = E.x]) /\ UNCHANGED <<nets, file, ob, prg, pm, cx>>
          [] E.ev = "threads" -> cx' = <<0, 0, 0>> /\ UNCHANGED <<nets, file, ob, mem, prg, pm>>
          [] E.ev = "call" -> Call /\ UNCHANGED <<nets, pm>>
          [] OTHER -> UNCHANGED <<nets, file, ob, mem, prg, pm, cx>>
TraceNext == \/ l <= Len(Trace) /\ E.ev = "reset" /\ l' = l + 1 /\ nets' = E.nets /\ file' = [i \in 1 .. Len(E.files) |-> [k |-> E.files[i].k, net |-> E.files[i].net, v |-> <<>>]]
                /\ ob' = <<>> /\ mem' = <<>> /\ prg' = <<>> /\ pm' = [make |-> "ok", init |-> "ok", infer |-> "ok", run |-> "ok"] /\ cx' = <<0, 0, 0>>
             \/ l <= Len(Trace) /\ E.ev # "reset" /\ l' = l + 1 /\ Body /\ (IF Obs THEN TRUE ELSE FALSE)
TraceSpec == Init /\ [][TraceNext]_vars
=============================================================================
