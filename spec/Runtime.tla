------------------------------ MODULE Runtime ------------------------------
(* The mechanism of the library, one step per access to shared state: event     *)
(* counters and followers, the user lists of the resources with their locks,    *)
(* the queues and availability flags of the workers, the wake-up flags, the     *)
(* pausing of tasks, narrowing, destruction, barrier and finalize.              *)
(*                                                                              *)
(* S is the state of TaskSystem, moved along with every observable step; bad    *)
(* collects the rules of TaskSystem such a step breaks, so `NothingBroken` says *)
(* that the mechanism implements TaskSystem (with a concrete refinement map:    *)
(* the observable steps), for every interleaving of the threads.                *)
(*                                                                              *)
(* Bug selects a variant of the mechanism: defects that were found in the code  *)
(* or are close to it.  Each is a negative test: TLC has to find a broken rule. *)
EXTENDS TaskSystem, Programs, Sequences, FiniteSets
CONSTANTS WORKERS, Set, Bug
Prog(p, a, b, m) == [par |-> p, acc |-> a, body |-> b, main |-> m]
Sub(k) == <<"submit", k>>
Yld(e) == <<"yield", e>>
Mk(e) == <<"mkev", e>>
Gt(k) == <<"get", k>>
Dem(x) == <<"demote", x>>
\* a few programs that together use every part of the mechanism; or a whole family of Programs
Progs ==
  CASE Set = "pause"   -> {Prog(<<0, 0>>, << <<W(1)>>, <<W(1)>> >>, << <<Yld(11)>>, <<>> >>, <<Sub(1), Sub(2)>>)}
    [] Set = "two"     -> {Prog(<<0, 0>>, << <<W(1), Rd(2)>>, <<W(2), Rd(1)>> >>, << <<>>, <<>> >>, <<Sub(1), Sub(2)>>)}
    [] Set = "event"   -> {Prog(<<0, 0>>, << <<W(1)>>, <<Rd(1)>> >>, << <<Mk(11)>>, <<>> >>, <<Sub(1), Sub(2)>>)}
    [] Set = "child"   -> {Prog(<<0, 1>>, << <<W(1)>>, <<W(1)>> >>, << <<Sub(2)>>, <<Mk(12)>> >>, <<Sub(1)>>)}
    [] Set = "childget" -> {Prog(<<0, 1>>, << <<>>, <<>> >>, << <<Sub(2), Gt(2)>>, <<>> >>, <<Sub(1)>>)}
    [] Set = "mainget" -> {Prog(<<0, 0>>, << <<>>, <<W(1)>> >>, << <<>>, <<>> >>, <<Sub(1), Gt(1), Sub(2)>>)}
    [] Set = "narrow"  -> {Prog(<<0, 0>>, << <<W(1), W(2)>>, <<W(1)>> >>, << <<Dem(<<W(2)>>)>>, <<>> >>, <<Sub(1), Sub(2)>>)}
    [] Set = "narrowpause" -> {Prog(<<0, 0>>, << <<W(1)>>, <<W(1)>> >>, << <<Dem(<<>>), Yld(11)>>, <<>> >>, <<Sub(1), Sub(2)>>)}
    [] Set = "narrow3" -> {Prog(<<0, 0, 0>>, << <<W(1), W(2)>>, <<W(1)>>, <<W(2)>> >>, << <<Dem(<<W(2)>>)>>, <<>>, <<>> >>, <<Sub(1), Sub(2), Sub(3)>>)}
    [] Set = "readers" -> {Prog(<<0, 0, 0>>, << <<W(1)>>, <<Rd(1)>>, <<W(1)>> >>, << <<>>, <<>>, <<>> >>, <<Sub(1), Sub(2), Sub(3)>>)}
    [] Set = "family3" -> {Prog(<<0, 1, 0>>, << <<W(1)>>, <<W(1)>>, <<W(1)>> >>, << <<Sub(2)>>, <<>>, <<>> >>, <<Sub(1), Sub(3)>>)}
    [] OTHER -> Programs
Tasks == 1..N
Ws == 1..WORKERS
Ext == {10 + t : t \in Tasks} \cup {20 + t : t \in Tasks}
Main == 0
Notif == 100
Pre(t) == <<"pre", t>>
Post(t) == <<"post", t>>
RSet(t) == <<"rset", t>>
RGet(t) == <<"rget", t>>
Ev(e) == <<"ext", e>>
EVS == {Pre(t) : t \in Tasks} \cup {Post(t) : t \in Tasks} \cup {RSet(t) : t \in Tasks} \cup {RGet(t) : t \in Tasks} \cup {Ev(e) : e \in Ext}
Res == {1, 2, 9}
ResOf(acc) == {acc[i][1] : i \in DOMAIN acc}
MinOf(X) == CHOOSE x \in X : \A y \in X : x <= y
MaxOf(X) == CHOOSE x \in X : \A y \in X : x >= y
Del(s, x) == SelectSeq(s, LAMBDA y : y # x)
RemoveAt_(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
PosOf(s, x) == CHOOSE i \in DOMAIN s : s[i] = x

(* --algorithm runtime
variables
  prog \in Progs,
  S = NewState(N), bad = {},
  cnt = [e \in EVS |-> 1], fol = [e \in EVS |-> <<>>], flock = [e \in EVS |-> FALSE],
  users = [r \in Res |-> <<>>], ulock = [r \in Res |-> FALSE],
  acc = [t \in Tasks |-> <<>>], res = [t \in Tasks |-> {}],
  count = 0, countdown = [t \in Tasks |-> 2],
  emq = [w \in Ws |-> <<>>], rdq = [w \in Ws |-> <<>>], avail = [w \in Ws |-> FALSE], stop = [w \in Ws |-> FALSE],
  asleep = [w \in 0..WORKERS |-> TRUE],          \* should_wait of the wake-up primitives
  waker = [e \in EVS |-> -1],
  tpc = [t \in Tasks |-> 1], paused = [t \in Tasks |-> <<>>],  \* where a body goes on, what it waits for
  nextw = [p \in 0..WORKERS |-> p % WORKERS],   \* as if earlier tasks had been dealt out
  ret = [p \in (0..WORKERS) \cup {Notif} |-> 0];

define
  Body(a) == IF a = 0 THEN prog.main ELSE prog.body[a]
  \* declared accesses as the scheduling graph sees them
  Serial(t, u) == ListConflict(acc[t], acc[u])
  HasSync(t, r) == \E i \in DOMAIN acc[t] : acc[t][i][1] = r /\ acc[t][i][2] = 0
  Reached(e) == cnt[e] = 0
  Freed(e) == e[1] # "ext" /\ e[2] \in S.gone
end define;

\* ---- followers: under the lock of the event
procedure add_follower(afe, aff)
begin
  af1: if Freed(afe) then bad := bad \cup {"touch.follower"}; end if;
       if Bug = "follower_unlocked" then
         if Reached(afe) then goto af3; end if;
       else
         await ~flock[afe];
         if Reached(afe) then goto af3; else flock[afe] := TRUE; end if;
       end if;
  af2: cnt[aff] := cnt[aff] + 1;
       fol[afe] := Append(fol[afe], aff);
       flock[afe] := FALSE;
  af3: return;
end procedure;

procedure activate(at)
variables aw = 0;
begin
  ac1: \* a free worker is claimed atomically, the search may miss one that just became free
       with w \in Ws do
         avail[w] := FALSE;
         aw := w;
       end with;
  ac2: if Bug = "wake_before_push" then asleep[aw] := FALSE; else rdq[aw] := Append(rdq[aw], at); end if;
  ac3: avail[aw] := FALSE;
       if Bug = "wake_before_push" then rdq[aw] := Append(rdq[aw], at); else asleep[aw] := FALSE; end if;
       return;
end procedure;

procedure notify(ne, claimed)
variables nst = 0, nf = <<>>, nr = {};
begin
  nt1: nst := cnt[ne] - 1;
       cnt[ne] := cnt[ne] - 1;
       bad := bad \cup (IF cnt[ne] < 0 THEN {"counter"} ELSE {}) \cup (IF Freed(ne) THEN {"touch.notify"} ELSE {});
       if nst = 1 /\ ne[1] = "pre" /\ ~claimed then
         call activate(ne[2]);
         goto nt9;
       elsif nst # 0 then
         goto nt9;
       elsif ne[1] = "post" then
         nr := res[ne[2]];
       end if;
  nt2: while nr # {} do
         await ~ulock[MinOf(nr)];
         users[MinOf(nr)] := Del(users[MinOf(nr)], ne[2]);
         nr := nr \ {MinOf(nr)};
       end while;
  nt3: if waker[ne] >= 0 then asleep[waker[ne]] := FALSE; end if;
       if Freed(ne) then bad := bad \cup {"touch.waker"}; end if;
  nt4: if Bug # "follower_unlocked" then await ~flock[ne]; end if;
       nf := fol[ne];
  nt5: while nf # <<>> do
         call notify(nf[Len(nf)], FALSE);
  nt6:   nf := SubSeq(nf, 1, Len(nf) - 1);
       end while;
  nt7: if ne[1] \notin {"post", "rget"} then goto nt9; end if;
  nt8: countdown[ne[2]] := countdown[ne[2]] - 1;
       if Bug = "countdown_in_two_steps" then goto ntr;
       elsif countdown[ne[2]] = 0 then goto ntf;
       else goto nt9; end if;
  ntr: if countdown[ne[2]] # 0 then goto nt9; end if;
  ntf: bad := bad \cup DtorReasons(S, ne[2]);
       S := DtorEffect(S, ne[2]);
  ntg: count := count - 1;
       if count = 0 then asleep := [w \in 0..WORKERS |-> FALSE]; end if;
  nt9: if claimed then
         ret[self] := IF Bug = "ready_read_again" THEN (IF cnt[ne] = 1 THEN 1 ELSE 0) ELSE (IF nst = 1 THEN 1 ELSE 0);
       end if;
       return;
end procedure;

\* ---- creating a task: by actor sa (0 = main program); every thread deals its tasks out to the workers in turn
procedure submit(st, sa)
variables sr = {}, sw = 0;
begin
  sb1: bad := bad \cup SubReasons(S, st, sa);
       S := SubEffect(S, st, sa, prog.acc[st], 0);
       acc[st] := prog.acc[st];
       res[st] := ResOf(prog.acc[st]);
       sr := ResOf(prog.acc[st]);
       count := count + 1;
       sw := nextw[self] + 1;
       nextw[self] := (nextw[self] + 1) % WORKERS;
       if sa # 0 /\ Bug # "parent_edge_late" then call add_follower(Post(st), Post(sa)); end if;
  sb2: while sr # {} do
         users[MinOf(sr)] := Append(users[MinOf(sr)], st);
         sr := sr \ {MinOf(sr)};
       end while;
  sb3: emq[sw] := Append(emq[sw], st);
  sb4: asleep[sw] := FALSE;
       S := SubREffect(S, st);
       return;
end procedure;

\* ---- the edges of a new task
procedure init_graph(it)
variables ir = {}, ip = 0, ik = 0;
begin
  ig0: ir := res[it];
       if Bug = "parent_edge_late" /\ S.par[it] # 0 then call add_follower(Post(it), Post(S.par[it])); end if;
  ig1: while ir # {} do
         await ~ulock[MinOf(ir)];
         ulock[MinOf(ir)] := TRUE;
         ip := PosOf(users[MinOf(ir)], it) - 1;
  ig2:   while ip > 0 do
           ik := users[MinOf(ir)][ip];
           if ik = S.par[it] then ip := 0;
           elsif S.par[ik] = S.par[it] /\ Serial(ik, it) then
             if ~Reached(Post(ik)) then call add_follower(Post(ik), Pre(it)); end if;
  ig3:       ip := IF HasSync(ik, MinOf(ir)) THEN 0 ELSE ip - 1;
           elsif Bug = "stop_at_foreign_writer" /\ HasSync(ik, MinOf(ir)) then ip := 0;
           else ip := ip - 1;
           end if;
         end while;
  ig4:   ulock[MinOf(ir)] := FALSE;
         ir := ir \ {MinOf(ir)};
         ik := 0;
       end while;
  ig5: return;
end procedure;

\* ---- the body of a task on a worker, until it pauses or ends
procedure execute(xt)
variables xr = {}, xi = 0, xk = {}, xc = <<>>;
begin
  ex1: call notify(Pre(xt), FALSE);
  ex2: if S.st[xt] # "paused" /\ paused[xt] = <<>> then
         bad := bad \cup StartReasons(S, xt, <<>>, -1, <<>>);
         S := StartEffect(S, xt);
         goto ex4;
       end if;
  ex3: \* goes on behind a wait?
       if ~Reached(paused[xt]) then goto exp1;
       elsif paused[xt][1] = "ext" then
         bad := bad \cup ResumeReasons(S, xt, paused[xt][2], -1, <<>>);
         S := ResumeEffect(S, xt);
         paused[xt] := <<>>;
         goto ex4;
       else
         bad := bad \cup GetRReasons(S, xt, paused[xt][2], 0);
         S := GetREffect(S, xt, paused[xt][2]);
         xi := paused[xt][2];
         paused[xt] := <<>>;
         call notify(RGet(xi), FALSE);
         goto ex4;
       end if;
  ex4: if tpc[xt] > Len(Body(xt)) then goto exe; end if;
  ex5: xc := Body(xt)[tpc[xt]];
       tpc[xt] := tpc[xt] + 1;
       if xc[1] = "submit" then
         call submit(xc[2], xt);
         goto ex4;
       elsif xc[1] = "mkev" then
         S := MkEffect(S, xt, xc[2]);
         call add_follower(Ev(xc[2]), Post(xt));
         goto ex4;
       elsif xc[1] = "yield" then
         S := YieldEffect(MkEffect(S, xt, xc[2]), xt, xc[2]);
         paused[xt] := Ev(xc[2]);
         call add_follower(Ev(xc[2]), Post(xt));
         goto ex3;
       elsif xc[1] = "get" then
         S := GetEffect(S, xt, xc[2]);
         paused[xt] := RSet(xc[2]);
         goto ex3;
       else
         S := DemEffect(S, xt, xc[2]);
         xr := IF Bug = "narrow_unlocked" THEN {} ELSE res[xt];
         goto exd1;
       end if;
  \* the end of the body gives up the futures of the children
  exe: bad := bad \cup EndReasons(S, xt);
       xk := {S.kids[xt][i] : i \in DOMAIN S.kids[xt]} \ S.given;
       S := [EndEffect(S, xt) EXCEPT !.given = @ \cup {S.kids[xt][i] : i \in DOMAIN S.kids[xt]}];
  exk: while xk # {} do
         xi := MinOf(xk);
         xk := xk \ {MinOf(xk)};
         call notify(RGet(xi), FALSE);
       end while;
       call notify(RSet(xt), FALSE);
  exo: call notify(Post(xt), FALSE);
       return;
  \* the task pauses: one notification by the event, one by this worker
  exp1: cnt[Pre(xt)] := IF Bug = "pause_counts_one" THEN 1 ELSE 2;
        call add_follower(paused[xt], Pre(xt));
  exp2: if Bug # "pause_counts_one" then call notify(Pre(xt), FALSE); return; else return; end if;
  \* narrowing, with the locks of all resources
  exd1: while xr # {} do
          await ~ulock[MinOf(xr)];
          ulock[MinOf(xr)] := TRUE;
          xr := xr \ {MinOf(xr)};
        end while;
  exd2: acc[xt] := xc[2];
        xi := Len(fol[Post(xt)]);
  exd3: while xi > 0 do
          if fol[Post(xt)][xi][1] = "pre" /\ ~Serial(xt, fol[Post(xt)][xi][2]) then
            with f = fol[Post(xt)][xi] do
              if Bug # "narrow_keeps_edge" then fol[Post(xt)] := RemoveAt_(fol[Post(xt)], xi); end if;
              call notify(f, FALSE);
            end with;
          end if;
  exd4:   xi := xi - 1;
        end while;
        ulock := [r \in Res |-> IF r \in res[xt] /\ Bug # "narrow_unlocked" THEN FALSE ELSE ulock[r]];
        S := DemREffect(S, xt);
        goto ex4;
end procedure;

fair process Worker \in Ws
variables wt = 0, wx = {};
begin
  w0: if stop[self] then goto Done; else avail[self] := TRUE; end if;
  w2: await ~asleep[self];
  w3: asleep[self] := TRUE;
  \* own ready queue
  w4: if rdq[self] # <<>> then
        wt := Head(rdq[self]); rdq[self] := Tail(rdq[self]);
        goto wx1;
      end if;
  \* own new tasks
  w5: if emq[self] = <<>> then goto w7;
      else
        wt := Head(emq[self]); emq[self] := Tail(emq[self]);
        cnt[Pre(wt)] := cnt[Pre(wt)] + 1;
        call init_graph(wt);
      end if;
  w5b: call notify(Pre(wt), TRUE);
  w6: if ret[self] = 1 then ret[self] := 0; goto wx1; else wt := 0; goto w5; end if;
  w7: avail[self] := TRUE;
      wx := Ws;
  \* ready tasks of busy workers, then the own queue again
  w8: while wx # {} do
        with x = MinOf(wx) do
          wx := wx \ {x};
          if ~avail[x] then
            if rdq[x] # <<>> then wt := Head(rdq[x]); rdq[x] := Tail(rdq[x]); goto wx1;
            elsif rdq[self] # <<>> then wt := Head(rdq[self]); rdq[self] := Tail(rdq[self]); goto wx1;
            end if;
          end if;
        end with;
      end while;
      wx := Ws;
  \* new tasks of busy workers
  w9: while wx # {} do
        with x = MinOf(wx) do
          if ~avail[x] /\ (emq[x] # <<>> \/ emq[self] # <<>>) then
            with y = IF emq[x] # <<>> THEN x ELSE self do
              wx := {};
              wt := Head(emq[y]);
              cnt[Pre(Head(emq[y]))] := cnt[Pre(Head(emq[y]))] + 1;
              emq[y] := Tail(emq[y]);
              call init_graph(wt);
              goto wb;
            end with;
          else
            wx := wx \ {x};
          end if;
        end with;
      end while;
      goto w0;
  wb: call notify(Pre(wt), TRUE);
  wc: if ret[self] = 0 then wt := 0; goto w0; else ret[self] := 0; end if;
  wx1: wx := {};
       avail[self] := FALSE;
       call execute(wt);
  wx2: wt := 0;
       goto w4;
end process;

fair process MainProgram = Main
variables mi = 1, mk = {}, mw = 0;
begin
  m1: if mi > Len(prog.main) then goto mz; end if;
  m2: mi := mi + 1;
      if prog.main[mi - 1][1] = "submit" then
        call submit(prog.main[mi - 1][2], 0);
        goto m1;
      else
        S := GetEffect(S, 0, prog.main[mi - 1][2]);
        if Bug # "register_after_check" then waker[RSet(prog.main[mi - 1][2])] := 0; end if;
      end if;
  mg: if Reached(RSet(prog.main[mi - 1][2])) then goto mg4; elsif Bug # "register_after_check" then goto mg2; end if;
  mg1: waker[RSet(prog.main[mi - 1][2])] := 0;
  mg2: await ~asleep[0];
  mg3: asleep[0] := TRUE;
       goto mg;
  mg4: bad := bad \cup GetRReasons(S, 0, prog.main[mi - 1][2], 0);
       S := GetREffect(S, 0, prog.main[mi - 1][2]);
       call notify(RGet(prog.main[mi - 1][2]), FALSE);
       goto m1;
  mz: mk := {S.kids[0][i] : i \in DOMAIN S.kids[0]} \ S.given;
      S := [S EXCEPT !.given = @ \cup {S.kids[0][i] : i \in DOMAIN S.kids[0]}];
  m3: while mk # {} do
        mi := MinOf(mk);
        mk := mk \ {MinOf(mk)};
        call notify(RGet(mi), FALSE);
      end while;
      S := BarEffect(S);
  m4: if count = 0 then goto m7; end if;
  m5: await ~asleep[0];
  m6: asleep[0] := TRUE;
      goto m4;
  m7: bad := bad \cup BarRReasons(S);
      S := BarREffect(S);
      mw := 1;
      await Bug = "finalize_ignores_notifier" \/ pc[Notif] = "n0";   \* external_notifications = 0
  m8: while mw <= WORKERS do
        if Bug = "wake_before_stop" then asleep[mw] := FALSE; else stop[mw] := TRUE; end if;
  m9:   if Bug = "wake_before_stop" then stop[mw] := TRUE; else asleep[mw] := FALSE; end if;
  ma:   await pc[mw] = "Done";
        mw := mw + 1;
      end while;
end process;

fair process Notifier = Notif
variables ndone = {}, nev = 0;
begin
  n0: \* the handle is given away once the event has been created completely
      with e \in {x \in Ext : x \notin ndone /\ Owner(S, x) # 0 /\ \E i \in DOMAIN fol[Ev(x)] : fol[Ev(x)][i] = Post(Owner(S, x))} do
        ndone := ndone \cup {e};
        nev := e;
        S := ReachEffect(S, e);
        call notify(Ev(e), FALSE);
      end with;
  n1: bad := bad \cup (IF pc[1] = "Done" THEN {"finalize.early"} ELSE {});
      S := ReachREffect(S, nev);
      goto n0;
end process;
end algorithm; *)
\* BEGIN TRANSLATION
CONSTANT defaultInitValue
VARIABLES pc, prog, S, bad, cnt, fol, flock, users, ulock, acc, res, count, 
          countdown, emq, rdq, avail, stop, asleep, waker, tpc, paused, nextw, 
          ret, stack

(* define statement *)
Body(a) == IF a = 0 THEN prog.main ELSE prog.body[a]

Serial(t, u) == ListConflict(acc[t], acc[u])
HasSync(t, r) == \E i \in DOMAIN acc[t] : acc[t][i][1] = r /\ acc[t][i][2] = 0
Reached(e) == cnt[e] = 0
Freed(e) == e[1] # "ext" /\ e[2] \in S.gone

VARIABLES afe, aff, at, aw, ne, claimed, nst, nf, nr, st, sa, sr, sw, it, ir, 
          ip, ik, xt, xr, xi, xk, xc, wt, wx, mi, mk, mw, ndone, nev

vars == << pc, prog, S, bad, cnt, fol, flock, users, ulock, acc, res, count, 
           countdown, emq, rdq, avail, stop, asleep, waker, tpc, paused, 
           nextw, ret, stack, afe, aff, at, aw, ne, claimed, nst, nf, nr, st, 
           sa, sr, sw, it, ir, ip, ik, xt, xr, xi, xk, xc, wt, wx, mi, mk, mw, 
           ndone, nev >>

ProcSet == (Ws) \cup {Main} \cup {Notif}

Init == (* Global variables *)
        /\ prog \in Progs
        /\ S = NewState(N)
        /\ bad = {}
        /\ cnt = [e \in EVS |-> 1]
        /\ fol = [e \in EVS |-> <<>>]
        /\ flock = [e \in EVS |-> FALSE]
        /\ users = [r \in Res |-> <<>>]
        /\ ulock = [r \in Res |-> FALSE]
        /\ acc = [t \in Tasks |-> <<>>]
        /\ res = [t \in Tasks |-> {}]
        /\ count = 0
        /\ countdown = [t \in Tasks |-> 2]
        /\ emq = [w \in Ws |-> <<>>]
        /\ rdq = [w \in Ws |-> <<>>]
        /\ avail = [w \in Ws |-> FALSE]
        /\ stop = [w \in Ws |-> FALSE]
        /\ asleep = [w \in 0..WORKERS |-> TRUE]
        /\ waker = [e \in EVS |-> -1]
        /\ tpc = [t \in Tasks |-> 1]
        /\ paused = [t \in Tasks |-> <<>>]
        /\ nextw = [p \in 0..WORKERS |-> p % WORKERS]
        /\ ret = [p \in (0..WORKERS) \cup {Notif} |-> 0]
        (* Procedure add_follower *)
        /\ afe = [ self \in ProcSet |-> defaultInitValue]
        /\ aff = [ self \in ProcSet |-> defaultInitValue]
        (* Procedure activate *)
        /\ at = [ self \in ProcSet |-> defaultInitValue]
        /\ aw = [ self \in ProcSet |-> 0]
        (* Procedure notify *)
        /\ ne = [ self \in ProcSet |-> defaultInitValue]
        /\ claimed = [ self \in ProcSet |-> defaultInitValue]
        /\ nst = [ self \in ProcSet |-> 0]
        /\ nf = [ self \in ProcSet |-> <<>>]
        /\ nr = [ self \in ProcSet |-> {}]
        (* Procedure submit *)
        /\ st = [ self \in ProcSet |-> defaultInitValue]
        /\ sa = [ self \in ProcSet |-> defaultInitValue]
        /\ sr = [ self \in ProcSet |-> {}]
        /\ sw = [ self \in ProcSet |-> 0]
        (* Procedure init_graph *)
        /\ it = [ self \in ProcSet |-> defaultInitValue]
        /\ ir = [ self \in ProcSet |-> {}]
        /\ ip = [ self \in ProcSet |-> 0]
        /\ ik = [ self \in ProcSet |-> 0]
        (* Procedure execute *)
        /\ xt = [ self \in ProcSet |-> defaultInitValue]
        /\ xr = [ self \in ProcSet |-> {}]
        /\ xi = [ self \in ProcSet |-> 0]
        /\ xk = [ self \in ProcSet |-> {}]
        /\ xc = [ self \in ProcSet |-> <<>>]
        (* Process Worker *)
        /\ wt = [self \in Ws |-> 0]
        /\ wx = [self \in Ws |-> {}]
        (* Process MainProgram *)
        /\ mi = 1
        /\ mk = {}
        /\ mw = 0
        (* Process Notifier *)
        /\ ndone = {}
        /\ nev = 0
        /\ stack = [self \in ProcSet |-> << >>]
        /\ pc = [self \in ProcSet |-> CASE self \in Ws -> "w0"
                                        [] self = Main -> "m1"
                                        [] self = Notif -> "n0"]

af1(self) == /\ pc[self] = "af1"
             /\ IF Freed(afe[self])
                   THEN /\ bad' = (bad \cup {"touch.follower"})
                   ELSE /\ TRUE
                        /\ bad' = bad
             /\ IF Bug = "follower_unlocked"
                   THEN /\ IF Reached(afe[self])
                              THEN /\ pc' = [pc EXCEPT ![self] = "af3"]
                              ELSE /\ pc' = [pc EXCEPT ![self] = "af2"]
                        /\ flock' = flock
                   ELSE /\ ~flock[afe[self]]
                        /\ IF Reached(afe[self])
                              THEN /\ pc' = [pc EXCEPT ![self] = "af3"]
                                   /\ flock' = flock
                              ELSE /\ flock' = [flock EXCEPT ![afe[self]] = TRUE]
                                   /\ pc' = [pc EXCEPT ![self] = "af2"]
             /\ UNCHANGED << prog, S, cnt, fol, users, ulock, acc, res, count, 
                             countdown, emq, rdq, avail, stop, asleep, waker, 
                             tpc, paused, nextw, ret, stack, afe, aff, at, aw, 
                             ne, claimed, nst, nf, nr, st, sa, sr, sw, it, ir, 
                             ip, ik, xt, xr, xi, xk, xc, wt, wx, mi, mk, mw, 
                             ndone, nev >>

af2(self) == /\ pc[self] = "af2"
             /\ cnt' = [cnt EXCEPT ![aff[self]] = cnt[aff[self]] + 1]
             /\ fol' = [fol EXCEPT ![afe[self]] = Append(fol[afe[self]], aff[self])]
             /\ flock' = [flock EXCEPT ![afe[self]] = FALSE]
             /\ pc' = [pc EXCEPT ![self] = "af3"]
             /\ UNCHANGED << prog, S, bad, users, ulock, acc, res, count, 
                             countdown, emq, rdq, avail, stop, asleep, waker, 
                             tpc, paused, nextw, ret, stack, afe, aff, at, aw, 
                             ne, claimed, nst, nf, nr, st, sa, sr, sw, it, ir, 
                             ip, ik, xt, xr, xi, xk, xc, wt, wx, mi, mk, mw, 
                             ndone, nev >>

af3(self) == /\ pc[self] = "af3"
             /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
             /\ afe' = [afe EXCEPT ![self] = Head(stack[self]).afe]
             /\ aff' = [aff EXCEPT ![self] = Head(stack[self]).aff]
             /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                             res, count, countdown, emq, rdq, avail, stop, 
                             asleep, waker, tpc, paused, nextw, ret, at, aw, 
                             ne, claimed, nst, nf, nr, st, sa, sr, sw, it, ir, 
                             ip, ik, xt, xr, xi, xk, xc, wt, wx, mi, mk, mw, 
                             ndone, nev >>

add_follower(self) == af1(self) \/ af2(self) \/ af3(self)

ac1(self) == /\ pc[self] = "ac1"
             /\ \E w \in Ws:
                  /\ avail' = [avail EXCEPT ![w] = FALSE]
                  /\ aw' = [aw EXCEPT ![self] = w]
             /\ pc' = [pc EXCEPT ![self] = "ac2"]
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                             res, count, countdown, emq, rdq, stop, asleep, 
                             waker, tpc, paused, nextw, ret, stack, afe, aff, 
                             at, ne, claimed, nst, nf, nr, st, sa, sr, sw, it, 
                             ir, ip, ik, xt, xr, xi, xk, xc, wt, wx, mi, mk, 
                             mw, ndone, nev >>

ac2(self) == /\ pc[self] = "ac2"
             /\ IF Bug = "wake_before_push"
                   THEN /\ asleep' = [asleep EXCEPT ![aw[self]] = FALSE]
                        /\ rdq' = rdq
                   ELSE /\ rdq' = [rdq EXCEPT ![aw[self]] = Append(rdq[aw[self]], at[self])]
                        /\ UNCHANGED asleep
             /\ pc' = [pc EXCEPT ![self] = "ac3"]
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                             res, count, countdown, emq, avail, stop, waker, 
                             tpc, paused, nextw, ret, stack, afe, aff, at, aw, 
                             ne, claimed, nst, nf, nr, st, sa, sr, sw, it, ir, 
                             ip, ik, xt, xr, xi, xk, xc, wt, wx, mi, mk, mw, 
                             ndone, nev >>

ac3(self) == /\ pc[self] = "ac3"
             /\ avail' = [avail EXCEPT ![aw[self]] = FALSE]
             /\ IF Bug = "wake_before_push"
                   THEN /\ rdq' = [rdq EXCEPT ![aw[self]] = Append(rdq[aw[self]], at[self])]
                        /\ UNCHANGED asleep
                   ELSE /\ asleep' = [asleep EXCEPT ![aw[self]] = FALSE]
                        /\ rdq' = rdq
             /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
             /\ aw' = [aw EXCEPT ![self] = Head(stack[self]).aw]
             /\ at' = [at EXCEPT ![self] = Head(stack[self]).at]
             /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                             res, count, countdown, emq, stop, waker, tpc, 
                             paused, nextw, ret, afe, aff, ne, claimed, nst, 
                             nf, nr, st, sa, sr, sw, it, ir, ip, ik, xt, xr, 
                             xi, xk, xc, wt, wx, mi, mk, mw, ndone, nev >>

activate(self) == ac1(self) \/ ac2(self) \/ ac3(self)

nt1(self) == /\ pc[self] = "nt1"
             /\ nst' = [nst EXCEPT ![self] = cnt[ne[self]] - 1]
             /\ cnt' = [cnt EXCEPT ![ne[self]] = cnt[ne[self]] - 1]
             /\ bad' = (bad \cup (IF cnt'[ne[self]] < 0 THEN {"counter"} ELSE {}) \cup (IF Freed(ne[self]) THEN {"touch.notify"} ELSE {}))
             /\ IF nst'[self] = 1 /\ ne[self][1] = "pre" /\ ~claimed[self]
                   THEN /\ /\ at' = [at EXCEPT ![self] = ne[self][2]]
                           /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "activate",
                                                                    pc        |->  "nt9",
                                                                    aw        |->  aw[self],
                                                                    at        |->  at[self] ] >>
                                                                \o stack[self]]
                        /\ aw' = [aw EXCEPT ![self] = 0]
                        /\ pc' = [pc EXCEPT ![self] = "ac1"]
                        /\ nr' = nr
                   ELSE /\ IF nst'[self] # 0
                              THEN /\ pc' = [pc EXCEPT ![self] = "nt9"]
                                   /\ nr' = nr
                              ELSE /\ IF ne[self][1] = "post"
                                         THEN /\ nr' = [nr EXCEPT ![self] = res[ne[self][2]]]
                                         ELSE /\ TRUE
                                              /\ nr' = nr
                                   /\ pc' = [pc EXCEPT ![self] = "nt2"]
                        /\ UNCHANGED << stack, at, aw >>
             /\ UNCHANGED << prog, S, fol, flock, users, ulock, acc, res, 
                             count, countdown, emq, rdq, avail, stop, asleep, 
                             waker, tpc, paused, nextw, ret, afe, aff, ne, 
                             claimed, nf, st, sa, sr, sw, it, ir, ip, ik, xt, 
                             xr, xi, xk, xc, wt, wx, mi, mk, mw, ndone, nev >>

nt2(self) == /\ pc[self] = "nt2"
             /\ IF nr[self] # {}
                   THEN /\ ~ulock[MinOf(nr[self])]
                        /\ users' = [users EXCEPT ![MinOf(nr[self])] = Del(users[MinOf(nr[self])], ne[self][2])]
                        /\ nr' = [nr EXCEPT ![self] = nr[self] \ {MinOf(nr[self])}]
                        /\ pc' = [pc EXCEPT ![self] = "nt2"]
                   ELSE /\ pc' = [pc EXCEPT ![self] = "nt3"]
                        /\ UNCHANGED << users, nr >>
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, ulock, acc, res, 
                             count, countdown, emq, rdq, avail, stop, asleep, 
                             waker, tpc, paused, nextw, ret, stack, afe, aff, 
                             at, aw, ne, claimed, nst, nf, st, sa, sr, sw, it, 
                             ir, ip, ik, xt, xr, xi, xk, xc, wt, wx, mi, mk, 
                             mw, ndone, nev >>

nt3(self) == /\ pc[self] = "nt3"
             /\ IF waker[ne[self]] >= 0
                   THEN /\ asleep' = [asleep EXCEPT ![waker[ne[self]]] = FALSE]
                   ELSE /\ TRUE
                        /\ UNCHANGED asleep
             /\ IF Freed(ne[self])
                   THEN /\ bad' = (bad \cup {"touch.waker"})
                   ELSE /\ TRUE
                        /\ bad' = bad
             /\ pc' = [pc EXCEPT ![self] = "nt4"]
             /\ UNCHANGED << prog, S, cnt, fol, flock, users, ulock, acc, res, 
                             count, countdown, emq, rdq, avail, stop, waker, 
                             tpc, paused, nextw, ret, stack, afe, aff, at, aw, 
                             ne, claimed, nst, nf, nr, st, sa, sr, sw, it, ir, 
                             ip, ik, xt, xr, xi, xk, xc, wt, wx, mi, mk, mw, 
                             ndone, nev >>

nt4(self) == /\ pc[self] = "nt4"
             /\ IF Bug # "follower_unlocked"
                   THEN /\ ~flock[ne[self]]
                   ELSE /\ TRUE
             /\ nf' = [nf EXCEPT ![self] = fol[ne[self]]]
             /\ pc' = [pc EXCEPT ![self] = "nt5"]
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                             res, count, countdown, emq, rdq, avail, stop, 
                             asleep, waker, tpc, paused, nextw, ret, stack, 
                             afe, aff, at, aw, ne, claimed, nst, nr, st, sa, 
                             sr, sw, it, ir, ip, ik, xt, xr, xi, xk, xc, wt, 
                             wx, mi, mk, mw, ndone, nev >>

nt5(self) == /\ pc[self] = "nt5"
             /\ IF nf[self] # <<>>
                   THEN /\ /\ claimed' = [claimed EXCEPT ![self] = FALSE]
                           /\ ne' = [ne EXCEPT ![self] = nf[self][Len(nf[self])]]
                           /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "notify",
                                                                    pc        |->  "nt6",
                                                                    nst       |->  nst[self],
                                                                    nf        |->  nf[self],
                                                                    nr        |->  nr[self],
                                                                    ne        |->  ne[self],
                                                                    claimed   |->  claimed[self] ] >>
                                                                \o stack[self]]
                        /\ nst' = [nst EXCEPT ![self] = 0]
                        /\ nf' = [nf EXCEPT ![self] = <<>>]
                        /\ nr' = [nr EXCEPT ![self] = {}]
                        /\ pc' = [pc EXCEPT ![self] = "nt1"]
                   ELSE /\ pc' = [pc EXCEPT ![self] = "nt7"]
                        /\ UNCHANGED << stack, ne, claimed, nst, nf, nr >>
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                             res, count, countdown, emq, rdq, avail, stop, 
                             asleep, waker, tpc, paused, nextw, ret, afe, aff, 
                             at, aw, st, sa, sr, sw, it, ir, ip, ik, xt, xr, 
                             xi, xk, xc, wt, wx, mi, mk, mw, ndone, nev >>

nt6(self) == /\ pc[self] = "nt6"
             /\ nf' = [nf EXCEPT ![self] = SubSeq(nf[self], 1, Len(nf[self]) - 1)]
             /\ pc' = [pc EXCEPT ![self] = "nt5"]
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                             res, count, countdown, emq, rdq, avail, stop, 
                             asleep, waker, tpc, paused, nextw, ret, stack, 
                             afe, aff, at, aw, ne, claimed, nst, nr, st, sa, 
                             sr, sw, it, ir, ip, ik, xt, xr, xi, xk, xc, wt, 
                             wx, mi, mk, mw, ndone, nev >>

nt7(self) == /\ pc[self] = "nt7"
             /\ IF ne[self][1] \notin {"post", "rget"}
                   THEN /\ pc' = [pc EXCEPT ![self] = "nt9"]
                   ELSE /\ pc' = [pc EXCEPT ![self] = "nt8"]
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                             res, count, countdown, emq, rdq, avail, stop, 
                             asleep, waker, tpc, paused, nextw, ret, stack, 
                             afe, aff, at, aw, ne, claimed, nst, nf, nr, st, 
                             sa, sr, sw, it, ir, ip, ik, xt, xr, xi, xk, xc, 
                             wt, wx, mi, mk, mw, ndone, nev >>

nt8(self) == /\ pc[self] = "nt8"
             /\ countdown' = [countdown EXCEPT ![ne[self][2]] = countdown[ne[self][2]] - 1]
             /\ IF Bug = "countdown_in_two_steps"
                   THEN /\ pc' = [pc EXCEPT ![self] = "ntr"]
                   ELSE /\ IF countdown'[ne[self][2]] = 0
                              THEN /\ pc' = [pc EXCEPT ![self] = "ntf"]
                              ELSE /\ pc' = [pc EXCEPT ![self] = "nt9"]
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                             res, count, emq, rdq, avail, stop, asleep, waker, 
                             tpc, paused, nextw, ret, stack, afe, aff, at, aw, 
                             ne, claimed, nst, nf, nr, st, sa, sr, sw, it, ir, 
                             ip, ik, xt, xr, xi, xk, xc, wt, wx, mi, mk, mw, 
                             ndone, nev >>

ntr(self) == /\ pc[self] = "ntr"
             /\ IF countdown[ne[self][2]] # 0
                   THEN /\ pc' = [pc EXCEPT ![self] = "nt9"]
                   ELSE /\ pc' = [pc EXCEPT ![self] = "ntf"]
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                             res, count, countdown, emq, rdq, avail, stop, 
                             asleep, waker, tpc, paused, nextw, ret, stack, 
                             afe, aff, at, aw, ne, claimed, nst, nf, nr, st, 
                             sa, sr, sw, it, ir, ip, ik, xt, xr, xi, xk, xc, 
                             wt, wx, mi, mk, mw, ndone, nev >>

ntf(self) == /\ pc[self] = "ntf"
             /\ bad' = (bad \cup DtorReasons(S, ne[self][2]))
             /\ S' = DtorEffect(S, ne[self][2])
             /\ pc' = [pc EXCEPT ![self] = "ntg"]
             /\ UNCHANGED << prog, cnt, fol, flock, users, ulock, acc, res, 
                             count, countdown, emq, rdq, avail, stop, asleep, 
                             waker, tpc, paused, nextw, ret, stack, afe, aff, 
                             at, aw, ne, claimed, nst, nf, nr, st, sa, sr, sw, 
                             it, ir, ip, ik, xt, xr, xi, xk, xc, wt, wx, mi, 
                             mk, mw, ndone, nev >>

ntg(self) == /\ pc[self] = "ntg"
             /\ count' = count - 1
             /\ IF count' = 0
                   THEN /\ asleep' = [w \in 0..WORKERS |-> FALSE]
                   ELSE /\ TRUE
                        /\ UNCHANGED asleep
             /\ pc' = [pc EXCEPT ![self] = "nt9"]
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                             res, countdown, emq, rdq, avail, stop, waker, tpc, 
                             paused, nextw, ret, stack, afe, aff, at, aw, ne, 
                             claimed, nst, nf, nr, st, sa, sr, sw, it, ir, ip, 
                             ik, xt, xr, xi, xk, xc, wt, wx, mi, mk, mw, ndone, 
                             nev >>

nt9(self) == /\ pc[self] = "nt9"
             /\ IF claimed[self]
                   THEN /\ ret' = [ret EXCEPT ![self] = IF Bug = "ready_read_again" THEN (IF cnt[ne[self]] = 1 THEN 1 ELSE 0) ELSE (IF nst[self] = 1 THEN 1 ELSE 0)]
                   ELSE /\ TRUE
                        /\ ret' = ret
             /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
             /\ nst' = [nst EXCEPT ![self] = Head(stack[self]).nst]
             /\ nf' = [nf EXCEPT ![self] = Head(stack[self]).nf]
             /\ nr' = [nr EXCEPT ![self] = Head(stack[self]).nr]
             /\ ne' = [ne EXCEPT ![self] = Head(stack[self]).ne]
             /\ claimed' = [claimed EXCEPT ![self] = Head(stack[self]).claimed]
             /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                             res, count, countdown, emq, rdq, avail, stop, 
                             asleep, waker, tpc, paused, nextw, afe, aff, at, 
                             aw, st, sa, sr, sw, it, ir, ip, ik, xt, xr, xi, 
                             xk, xc, wt, wx, mi, mk, mw, ndone, nev >>

notify(self) == nt1(self) \/ nt2(self) \/ nt3(self) \/ nt4(self)
                   \/ nt5(self) \/ nt6(self) \/ nt7(self) \/ nt8(self)
                   \/ ntr(self) \/ ntf(self) \/ ntg(self) \/ nt9(self)

sb1(self) == /\ pc[self] = "sb1"
             /\ bad' = (bad \cup SubReasons(S, st[self], sa[self]))
             /\ S' = SubEffect(S, st[self], sa[self], prog.acc[st[self]], 0)
             /\ acc' = [acc EXCEPT ![st[self]] = prog.acc[st[self]]]
             /\ res' = [res EXCEPT ![st[self]] = ResOf(prog.acc[st[self]])]
             /\ sr' = [sr EXCEPT ![self] = ResOf(prog.acc[st[self]])]
             /\ count' = count + 1
             /\ sw' = [sw EXCEPT ![self] = nextw[self] + 1]
             /\ nextw' = [nextw EXCEPT ![self] = (nextw[self] + 1) % WORKERS]
             /\ IF sa[self] # 0 /\ Bug # "parent_edge_late"
                   THEN /\ /\ afe' = [afe EXCEPT ![self] = Post(st[self])]
                           /\ aff' = [aff EXCEPT ![self] = Post(sa[self])]
                           /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "add_follower",
                                                                    pc        |->  "sb2",
                                                                    afe       |->  afe[self],
                                                                    aff       |->  aff[self] ] >>
                                                                \o stack[self]]
                        /\ pc' = [pc EXCEPT ![self] = "af1"]
                   ELSE /\ pc' = [pc EXCEPT ![self] = "sb2"]
                        /\ UNCHANGED << stack, afe, aff >>
             /\ UNCHANGED << prog, cnt, fol, flock, users, ulock, countdown, 
                             emq, rdq, avail, stop, asleep, waker, tpc, paused, 
                             ret, at, aw, ne, claimed, nst, nf, nr, st, sa, it, 
                             ir, ip, ik, xt, xr, xi, xk, xc, wt, wx, mi, mk, 
                             mw, ndone, nev >>

sb2(self) == /\ pc[self] = "sb2"
             /\ IF sr[self] # {}
                   THEN /\ users' = [users EXCEPT ![MinOf(sr[self])] = Append(users[MinOf(sr[self])], st[self])]
                        /\ sr' = [sr EXCEPT ![self] = sr[self] \ {MinOf(sr[self])}]
                        /\ pc' = [pc EXCEPT ![self] = "sb2"]
                   ELSE /\ pc' = [pc EXCEPT ![self] = "sb3"]
                        /\ UNCHANGED << users, sr >>
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, ulock, acc, res, 
                             count, countdown, emq, rdq, avail, stop, asleep, 
                             waker, tpc, paused, nextw, ret, stack, afe, aff, 
                             at, aw, ne, claimed, nst, nf, nr, st, sa, sw, it, 
                             ir, ip, ik, xt, xr, xi, xk, xc, wt, wx, mi, mk, 
                             mw, ndone, nev >>

sb3(self) == /\ pc[self] = "sb3"
             /\ emq' = [emq EXCEPT ![sw[self]] = Append(emq[sw[self]], st[self])]
             /\ pc' = [pc EXCEPT ![self] = "sb4"]
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                             res, count, countdown, rdq, avail, stop, asleep, 
                             waker, tpc, paused, nextw, ret, stack, afe, aff, 
                             at, aw, ne, claimed, nst, nf, nr, st, sa, sr, sw, 
                             it, ir, ip, ik, xt, xr, xi, xk, xc, wt, wx, mi, 
                             mk, mw, ndone, nev >>

sb4(self) == /\ pc[self] = "sb4"
             /\ asleep' = [asleep EXCEPT ![sw[self]] = FALSE]
             /\ S' = SubREffect(S, st[self])
             /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
             /\ sr' = [sr EXCEPT ![self] = Head(stack[self]).sr]
             /\ sw' = [sw EXCEPT ![self] = Head(stack[self]).sw]
             /\ st' = [st EXCEPT ![self] = Head(stack[self]).st]
             /\ sa' = [sa EXCEPT ![self] = Head(stack[self]).sa]
             /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
             /\ UNCHANGED << prog, bad, cnt, fol, flock, users, ulock, acc, 
                             res, count, countdown, emq, rdq, avail, stop, 
                             waker, tpc, paused, nextw, ret, afe, aff, at, aw, 
                             ne, claimed, nst, nf, nr, it, ir, ip, ik, xt, xr, 
                             xi, xk, xc, wt, wx, mi, mk, mw, ndone, nev >>

submit(self) == sb1(self) \/ sb2(self) \/ sb3(self) \/ sb4(self)

ig0(self) == /\ pc[self] = "ig0"
             /\ ir' = [ir EXCEPT ![self] = res[it[self]]]
             /\ IF Bug = "parent_edge_late" /\ S.par[it[self]] # 0
                   THEN /\ /\ afe' = [afe EXCEPT ![self] = Post(it[self])]
                           /\ aff' = [aff EXCEPT ![self] = Post(S.par[it[self]])]
                           /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "add_follower",
                                                                    pc        |->  "ig1",
                                                                    afe       |->  afe[self],
                                                                    aff       |->  aff[self] ] >>
                                                                \o stack[self]]
                        /\ pc' = [pc EXCEPT ![self] = "af1"]
                   ELSE /\ pc' = [pc EXCEPT ![self] = "ig1"]
                        /\ UNCHANGED << stack, afe, aff >>
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                             res, count, countdown, emq, rdq, avail, stop, 
                             asleep, waker, tpc, paused, nextw, ret, at, aw, 
                             ne, claimed, nst, nf, nr, st, sa, sr, sw, it, ip, 
                             ik, xt, xr, xi, xk, xc, wt, wx, mi, mk, mw, ndone, 
                             nev >>

ig1(self) == /\ pc[self] = "ig1"
             /\ IF ir[self] # {}
                   THEN /\ ~ulock[MinOf(ir[self])]
                        /\ ulock' = [ulock EXCEPT ![MinOf(ir[self])] = TRUE]
                        /\ ip' = [ip EXCEPT ![self] = PosOf(users[MinOf(ir[self])], it[self]) - 1]
                        /\ pc' = [pc EXCEPT ![self] = "ig2"]
                   ELSE /\ pc' = [pc EXCEPT ![self] = "ig5"]
                        /\ UNCHANGED << ulock, ip >>
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, acc, res, 
                             count, countdown, emq, rdq, avail, stop, asleep, 
                             waker, tpc, paused, nextw, ret, stack, afe, aff, 
                             at, aw, ne, claimed, nst, nf, nr, st, sa, sr, sw, 
                             it, ir, ik, xt, xr, xi, xk, xc, wt, wx, mi, mk, 
                             mw, ndone, nev >>

ig2(self) == /\ pc[self] = "ig2"
             /\ IF ip[self] > 0
                   THEN /\ ik' = [ik EXCEPT ![self] = users[MinOf(ir[self])][ip[self]]]
                        /\ IF ik'[self] = S.par[it[self]]
                              THEN /\ ip' = [ip EXCEPT ![self] = 0]
                                   /\ pc' = [pc EXCEPT ![self] = "ig2"]
                                   /\ UNCHANGED << stack, afe, aff >>
                              ELSE /\ IF S.par[ik'[self]] = S.par[it[self]] /\ Serial(ik'[self], it[self])
                                         THEN /\ IF ~Reached(Post(ik'[self]))
                                                    THEN /\ /\ afe' = [afe EXCEPT ![self] = Post(ik'[self])]
                                                            /\ aff' = [aff EXCEPT ![self] = Pre(it[self])]
                                                            /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "add_follower",
                                                                                                     pc        |->  "ig3",
                                                                                                     afe       |->  afe[self],
                                                                                                     aff       |->  aff[self] ] >>
                                                                                                 \o stack[self]]
                                                         /\ pc' = [pc EXCEPT ![self] = "af1"]
                                                    ELSE /\ pc' = [pc EXCEPT ![self] = "ig3"]
                                                         /\ UNCHANGED << stack, 
                                                                         afe, 
                                                                         aff >>
                                              /\ ip' = ip
                                         ELSE /\ IF Bug = "stop_at_foreign_writer" /\ HasSync(ik'[self], MinOf(ir[self]))
                                                    THEN /\ ip' = [ip EXCEPT ![self] = 0]
                                                    ELSE /\ ip' = [ip EXCEPT ![self] = ip[self] - 1]
                                              /\ pc' = [pc EXCEPT ![self] = "ig2"]
                                              /\ UNCHANGED << stack, afe, aff >>
                   ELSE /\ pc' = [pc EXCEPT ![self] = "ig4"]
                        /\ UNCHANGED << stack, afe, aff, ip, ik >>
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                             res, count, countdown, emq, rdq, avail, stop, 
                             asleep, waker, tpc, paused, nextw, ret, at, aw, 
                             ne, claimed, nst, nf, nr, st, sa, sr, sw, it, ir, 
                             xt, xr, xi, xk, xc, wt, wx, mi, mk, mw, ndone, 
                             nev >>

ig3(self) == /\ pc[self] = "ig3"
             /\ ip' = [ip EXCEPT ![self] = IF HasSync(ik[self], MinOf(ir[self])) THEN 0 ELSE ip[self] - 1]
             /\ pc' = [pc EXCEPT ![self] = "ig2"]
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                             res, count, countdown, emq, rdq, avail, stop, 
                             asleep, waker, tpc, paused, nextw, ret, stack, 
                             afe, aff, at, aw, ne, claimed, nst, nf, nr, st, 
                             sa, sr, sw, it, ir, ik, xt, xr, xi, xk, xc, wt, 
                             wx, mi, mk, mw, ndone, nev >>

ig4(self) == /\ pc[self] = "ig4"
             /\ ulock' = [ulock EXCEPT ![MinOf(ir[self])] = FALSE]
             /\ ir' = [ir EXCEPT ![self] = ir[self] \ {MinOf(ir[self])}]
             /\ ik' = [ik EXCEPT ![self] = 0]
             /\ pc' = [pc EXCEPT ![self] = "ig1"]
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, acc, res, 
                             count, countdown, emq, rdq, avail, stop, asleep, 
                             waker, tpc, paused, nextw, ret, stack, afe, aff, 
                             at, aw, ne, claimed, nst, nf, nr, st, sa, sr, sw, 
                             it, ip, xt, xr, xi, xk, xc, wt, wx, mi, mk, mw, 
                             ndone, nev >>

ig5(self) == /\ pc[self] = "ig5"
             /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
             /\ ir' = [ir EXCEPT ![self] = Head(stack[self]).ir]
             /\ ip' = [ip EXCEPT ![self] = Head(stack[self]).ip]
             /\ ik' = [ik EXCEPT ![self] = Head(stack[self]).ik]
             /\ it' = [it EXCEPT ![self] = Head(stack[self]).it]
             /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                             res, count, countdown, emq, rdq, avail, stop, 
                             asleep, waker, tpc, paused, nextw, ret, afe, aff, 
                             at, aw, ne, claimed, nst, nf, nr, st, sa, sr, sw, 
                             xt, xr, xi, xk, xc, wt, wx, mi, mk, mw, ndone, 
                             nev >>

init_graph(self) == ig0(self) \/ ig1(self) \/ ig2(self) \/ ig3(self)
                       \/ ig4(self) \/ ig5(self)

ex1(self) == /\ pc[self] = "ex1"
             /\ /\ claimed' = [claimed EXCEPT ![self] = FALSE]
                /\ ne' = [ne EXCEPT ![self] = Pre(xt[self])]
                /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "notify",
                                                         pc        |->  "ex2",
                                                         nst       |->  nst[self],
                                                         nf        |->  nf[self],
                                                         nr        |->  nr[self],
                                                         ne        |->  ne[self],
                                                         claimed   |->  claimed[self] ] >>
                                                     \o stack[self]]
             /\ nst' = [nst EXCEPT ![self] = 0]
             /\ nf' = [nf EXCEPT ![self] = <<>>]
             /\ nr' = [nr EXCEPT ![self] = {}]
             /\ pc' = [pc EXCEPT ![self] = "nt1"]
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                             res, count, countdown, emq, rdq, avail, stop, 
                             asleep, waker, tpc, paused, nextw, ret, afe, aff, 
                             at, aw, st, sa, sr, sw, it, ir, ip, ik, xt, xr, 
                             xi, xk, xc, wt, wx, mi, mk, mw, ndone, nev >>

ex2(self) == /\ pc[self] = "ex2"
             /\ IF S.st[xt[self]] # "paused" /\ paused[xt[self]] = <<>>
                   THEN /\ bad' = (bad \cup StartReasons(S, xt[self], <<>>, -1, <<>>))
                        /\ S' = StartEffect(S, xt[self])
                        /\ pc' = [pc EXCEPT ![self] = "ex4"]
                   ELSE /\ pc' = [pc EXCEPT ![self] = "ex3"]
                        /\ UNCHANGED << S, bad >>
             /\ UNCHANGED << prog, cnt, fol, flock, users, ulock, acc, res, 
                             count, countdown, emq, rdq, avail, stop, asleep, 
                             waker, tpc, paused, nextw, ret, stack, afe, aff, 
                             at, aw, ne, claimed, nst, nf, nr, st, sa, sr, sw, 
                             it, ir, ip, ik, xt, xr, xi, xk, xc, wt, wx, mi, 
                             mk, mw, ndone, nev >>

ex3(self) == /\ pc[self] = "ex3"
             /\ IF ~Reached(paused[xt[self]])
                   THEN /\ pc' = [pc EXCEPT ![self] = "exp1"]
                        /\ UNCHANGED << S, bad, paused, stack, ne, claimed, 
                                        nst, nf, nr, xi >>
                   ELSE /\ IF paused[xt[self]][1] = "ext"
                              THEN /\ bad' = (bad \cup ResumeReasons(S, xt[self], paused[xt[self]][2], -1, <<>>))
                                   /\ S' = ResumeEffect(S, xt[self])
                                   /\ paused' = [paused EXCEPT ![xt[self]] = <<>>]
                                   /\ pc' = [pc EXCEPT ![self] = "ex4"]
                                   /\ UNCHANGED << stack, ne, claimed, nst, nf, 
                                                   nr, xi >>
                              ELSE /\ bad' = (bad \cup GetRReasons(S, xt[self], paused[xt[self]][2], 0))
                                   /\ S' = GetREffect(S, xt[self], paused[xt[self]][2])
                                   /\ xi' = [xi EXCEPT ![self] = paused[xt[self]][2]]
                                   /\ paused' = [paused EXCEPT ![xt[self]] = <<>>]
                                   /\ /\ claimed' = [claimed EXCEPT ![self] = FALSE]
                                      /\ ne' = [ne EXCEPT ![self] = RGet(xi'[self])]
                                      /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "notify",
                                                                               pc        |->  "ex4",
                                                                               nst       |->  nst[self],
                                                                               nf        |->  nf[self],
                                                                               nr        |->  nr[self],
                                                                               ne        |->  ne[self],
                                                                               claimed   |->  claimed[self] ] >>
                                                                           \o stack[self]]
                                   /\ nst' = [nst EXCEPT ![self] = 0]
                                   /\ nf' = [nf EXCEPT ![self] = <<>>]
                                   /\ nr' = [nr EXCEPT ![self] = {}]
                                   /\ pc' = [pc EXCEPT ![self] = "nt1"]
             /\ UNCHANGED << prog, cnt, fol, flock, users, ulock, acc, res, 
                             count, countdown, emq, rdq, avail, stop, asleep, 
                             waker, tpc, nextw, ret, afe, aff, at, aw, st, sa, 
                             sr, sw, it, ir, ip, ik, xt, xr, xk, xc, wt, wx, 
                             mi, mk, mw, ndone, nev >>

ex4(self) == /\ pc[self] = "ex4"
             /\ IF tpc[xt[self]] > Len(Body(xt[self]))
                   THEN /\ pc' = [pc EXCEPT ![self] = "exe"]
                   ELSE /\ pc' = [pc EXCEPT ![self] = "ex5"]
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                             res, count, countdown, emq, rdq, avail, stop, 
                             asleep, waker, tpc, paused, nextw, ret, stack, 
                             afe, aff, at, aw, ne, claimed, nst, nf, nr, st, 
                             sa, sr, sw, it, ir, ip, ik, xt, xr, xi, xk, xc, 
                             wt, wx, mi, mk, mw, ndone, nev >>

ex5(self) == /\ pc[self] = "ex5"
             /\ xc' = [xc EXCEPT ![self] = Body(xt[self])[tpc[xt[self]]]]
             /\ tpc' = [tpc EXCEPT ![xt[self]] = tpc[xt[self]] + 1]
             /\ IF xc'[self][1] = "submit"
                   THEN /\ /\ sa' = [sa EXCEPT ![self] = xt[self]]
                           /\ st' = [st EXCEPT ![self] = xc'[self][2]]
                           /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "submit",
                                                                    pc        |->  "ex4",
                                                                    sr        |->  sr[self],
                                                                    sw        |->  sw[self],
                                                                    st        |->  st[self],
                                                                    sa        |->  sa[self] ] >>
                                                                \o stack[self]]
                        /\ sr' = [sr EXCEPT ![self] = {}]
                        /\ sw' = [sw EXCEPT ![self] = 0]
                        /\ pc' = [pc EXCEPT ![self] = "sb1"]
                        /\ UNCHANGED << S, paused, afe, aff, xr >>
                   ELSE /\ IF xc'[self][1] = "mkev"
                              THEN /\ S' = MkEffect(S, xt[self], xc'[self][2])
                                   /\ /\ afe' = [afe EXCEPT ![self] = Ev(xc'[self][2])]
                                      /\ aff' = [aff EXCEPT ![self] = Post(xt[self])]
                                      /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "add_follower",
                                                                               pc        |->  "ex4",
                                                                               afe       |->  afe[self],
                                                                               aff       |->  aff[self] ] >>
                                                                           \o stack[self]]
                                   /\ pc' = [pc EXCEPT ![self] = "af1"]
                                   /\ UNCHANGED << paused, xr >>
                              ELSE /\ IF xc'[self][1] = "yield"
                                         THEN /\ S' = YieldEffect(MkEffect(S, xt[self], xc'[self][2]), xt[self], xc'[self][2])
                                              /\ paused' = [paused EXCEPT ![xt[self]] = Ev(xc'[self][2])]
                                              /\ /\ afe' = [afe EXCEPT ![self] = Ev(xc'[self][2])]
                                                 /\ aff' = [aff EXCEPT ![self] = Post(xt[self])]
                                                 /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "add_follower",
                                                                                          pc        |->  "ex3",
                                                                                          afe       |->  afe[self],
                                                                                          aff       |->  aff[self] ] >>
                                                                                      \o stack[self]]
                                              /\ pc' = [pc EXCEPT ![self] = "af1"]
                                              /\ xr' = xr
                                         ELSE /\ IF xc'[self][1] = "get"
                                                    THEN /\ S' = GetEffect(S, xt[self], xc'[self][2])
                                                         /\ paused' = [paused EXCEPT ![xt[self]] = RSet(xc'[self][2])]
                                                         /\ pc' = [pc EXCEPT ![self] = "ex3"]
                                                         /\ xr' = xr
                                                    ELSE /\ S' = DemEffect(S, xt[self], xc'[self][2])
                                                         /\ xr' = [xr EXCEPT ![self] = IF Bug = "narrow_unlocked" THEN {} ELSE res[xt[self]]]
                                                         /\ pc' = [pc EXCEPT ![self] = "exd1"]
                                                         /\ UNCHANGED paused
                                              /\ UNCHANGED << stack, afe, aff >>
                        /\ UNCHANGED << st, sa, sr, sw >>
             /\ UNCHANGED << prog, bad, cnt, fol, flock, users, ulock, acc, 
                             res, count, countdown, emq, rdq, avail, stop, 
                             asleep, waker, nextw, ret, at, aw, ne, claimed, 
                             nst, nf, nr, it, ir, ip, ik, xt, xi, xk, wt, wx, 
                             mi, mk, mw, ndone, nev >>

exe(self) == /\ pc[self] = "exe"
             /\ bad' = (bad \cup EndReasons(S, xt[self]))
             /\ xk' = [xk EXCEPT ![self] = {S.kids[xt[self]][i] : i \in DOMAIN S.kids[xt[self]]} \ S.given]
             /\ S' = [EndEffect(S, xt[self]) EXCEPT !.given = @ \cup {S.kids[xt[self]][i] : i \in DOMAIN S.kids[xt[self]]}]
             /\ pc' = [pc EXCEPT ![self] = "exk"]
             /\ UNCHANGED << prog, cnt, fol, flock, users, ulock, acc, res, 
                             count, countdown, emq, rdq, avail, stop, asleep, 
                             waker, tpc, paused, nextw, ret, stack, afe, aff, 
                             at, aw, ne, claimed, nst, nf, nr, st, sa, sr, sw, 
                             it, ir, ip, ik, xt, xr, xi, xc, wt, wx, mi, mk, 
                             mw, ndone, nev >>

exk(self) == /\ pc[self] = "exk"
             /\ IF xk[self] # {}
                   THEN /\ xi' = [xi EXCEPT ![self] = MinOf(xk[self])]
                        /\ xk' = [xk EXCEPT ![self] = xk[self] \ {MinOf(xk[self])}]
                        /\ /\ claimed' = [claimed EXCEPT ![self] = FALSE]
                           /\ ne' = [ne EXCEPT ![self] = RGet(xi'[self])]
                           /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "notify",
                                                                    pc        |->  "exk",
                                                                    nst       |->  nst[self],
                                                                    nf        |->  nf[self],
                                                                    nr        |->  nr[self],
                                                                    ne        |->  ne[self],
                                                                    claimed   |->  claimed[self] ] >>
                                                                \o stack[self]]
                        /\ nst' = [nst EXCEPT ![self] = 0]
                        /\ nf' = [nf EXCEPT ![self] = <<>>]
                        /\ nr' = [nr EXCEPT ![self] = {}]
                        /\ pc' = [pc EXCEPT ![self] = "nt1"]
                   ELSE /\ /\ claimed' = [claimed EXCEPT ![self] = FALSE]
                           /\ ne' = [ne EXCEPT ![self] = RSet(xt[self])]
                           /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "notify",
                                                                    pc        |->  "exo",
                                                                    nst       |->  nst[self],
                                                                    nf        |->  nf[self],
                                                                    nr        |->  nr[self],
                                                                    ne        |->  ne[self],
                                                                    claimed   |->  claimed[self] ] >>
                                                                \o stack[self]]
                        /\ nst' = [nst EXCEPT ![self] = 0]
                        /\ nf' = [nf EXCEPT ![self] = <<>>]
                        /\ nr' = [nr EXCEPT ![self] = {}]
                        /\ pc' = [pc EXCEPT ![self] = "nt1"]
                        /\ UNCHANGED << xi, xk >>
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                             res, count, countdown, emq, rdq, avail, stop, 
                             asleep, waker, tpc, paused, nextw, ret, afe, aff, 
                             at, aw, st, sa, sr, sw, it, ir, ip, ik, xt, xr, 
                             xc, wt, wx, mi, mk, mw, ndone, nev >>

exo(self) == /\ pc[self] = "exo"
             /\ /\ claimed' = [claimed EXCEPT ![self] = FALSE]
                /\ ne' = [ne EXCEPT ![self] = Post(xt[self])]
                /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "notify",
                                                         pc        |->  Head(stack[self]).pc,
                                                         nst       |->  nst[self],
                                                         nf        |->  nf[self],
                                                         nr        |->  nr[self],
                                                         ne        |->  ne[self],
                                                         claimed   |->  claimed[self] ] >>
                                                     \o Tail(stack[self])]
                /\ xc' = [xc EXCEPT ![self] = Head(stack[self]).xc]
                /\ xi' = [xi EXCEPT ![self] = Head(stack[self]).xi]
                /\ xk' = [xk EXCEPT ![self] = Head(stack[self]).xk]
                /\ xr' = [xr EXCEPT ![self] = Head(stack[self]).xr]
             /\ nst' = [nst EXCEPT ![self] = 0]
             /\ nf' = [nf EXCEPT ![self] = <<>>]
             /\ nr' = [nr EXCEPT ![self] = {}]
             /\ pc' = [pc EXCEPT ![self] = "nt1"]
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                             res, count, countdown, emq, rdq, avail, stop, 
                             asleep, waker, tpc, paused, nextw, ret, afe, aff, 
                             at, aw, st, sa, sr, sw, it, ir, ip, ik, xt, wt, 
                             wx, mi, mk, mw, ndone, nev >>

exp1(self) == /\ pc[self] = "exp1"
              /\ cnt' = [cnt EXCEPT ![Pre(xt[self])] = IF Bug = "pause_counts_one" THEN 1 ELSE 2]
              /\ /\ afe' = [afe EXCEPT ![self] = paused[xt[self]]]
                 /\ aff' = [aff EXCEPT ![self] = Pre(xt[self])]
                 /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "add_follower",
                                                          pc        |->  "exp2",
                                                          afe       |->  afe[self],
                                                          aff       |->  aff[self] ] >>
                                                      \o stack[self]]
              /\ pc' = [pc EXCEPT ![self] = "af1"]
              /\ UNCHANGED << prog, S, bad, fol, flock, users, ulock, acc, res, 
                              count, countdown, emq, rdq, avail, stop, asleep, 
                              waker, tpc, paused, nextw, ret, at, aw, ne, 
                              claimed, nst, nf, nr, st, sa, sr, sw, it, ir, ip, 
                              ik, xt, xr, xi, xk, xc, wt, wx, mi, mk, mw, 
                              ndone, nev >>

exp2(self) == /\ pc[self] = "exp2"
              /\ IF Bug # "pause_counts_one"
                    THEN /\ /\ claimed' = [claimed EXCEPT ![self] = FALSE]
                            /\ ne' = [ne EXCEPT ![self] = Pre(xt[self])]
                            /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "notify",
                                                                     pc        |->  Head(stack[self]).pc,
                                                                     nst       |->  nst[self],
                                                                     nf        |->  nf[self],
                                                                     nr        |->  nr[self],
                                                                     ne        |->  ne[self],
                                                                     claimed   |->  claimed[self] ] >>
                                                                 \o Tail(stack[self])]
                            /\ xc' = [xc EXCEPT ![self] = Head(stack[self]).xc]
                            /\ xi' = [xi EXCEPT ![self] = Head(stack[self]).xi]
                            /\ xk' = [xk EXCEPT ![self] = Head(stack[self]).xk]
                            /\ xr' = [xr EXCEPT ![self] = Head(stack[self]).xr]
                         /\ nst' = [nst EXCEPT ![self] = 0]
                         /\ nf' = [nf EXCEPT ![self] = <<>>]
                         /\ nr' = [nr EXCEPT ![self] = {}]
                         /\ pc' = [pc EXCEPT ![self] = "nt1"]
                         /\ xt' = xt
                    ELSE /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                         /\ xr' = [xr EXCEPT ![self] = Head(stack[self]).xr]
                         /\ xi' = [xi EXCEPT ![self] = Head(stack[self]).xi]
                         /\ xk' = [xk EXCEPT ![self] = Head(stack[self]).xk]
                         /\ xc' = [xc EXCEPT ![self] = Head(stack[self]).xc]
                         /\ xt' = [xt EXCEPT ![self] = Head(stack[self]).xt]
                         /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                         /\ UNCHANGED << ne, claimed, nst, nf, nr >>
              /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                              res, count, countdown, emq, rdq, avail, stop, 
                              asleep, waker, tpc, paused, nextw, ret, afe, aff, 
                              at, aw, st, sa, sr, sw, it, ir, ip, ik, wt, wx, 
                              mi, mk, mw, ndone, nev >>

exd1(self) == /\ pc[self] = "exd1"
              /\ IF xr[self] # {}
                    THEN /\ ~ulock[MinOf(xr[self])]
                         /\ ulock' = [ulock EXCEPT ![MinOf(xr[self])] = TRUE]
                         /\ xr' = [xr EXCEPT ![self] = xr[self] \ {MinOf(xr[self])}]
                         /\ pc' = [pc EXCEPT ![self] = "exd1"]
                    ELSE /\ pc' = [pc EXCEPT ![self] = "exd2"]
                         /\ UNCHANGED << ulock, xr >>
              /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, acc, res, 
                              count, countdown, emq, rdq, avail, stop, asleep, 
                              waker, tpc, paused, nextw, ret, stack, afe, aff, 
                              at, aw, ne, claimed, nst, nf, nr, st, sa, sr, sw, 
                              it, ir, ip, ik, xt, xi, xk, xc, wt, wx, mi, mk, 
                              mw, ndone, nev >>

exd2(self) == /\ pc[self] = "exd2"
              /\ acc' = [acc EXCEPT ![xt[self]] = xc[self][2]]
              /\ xi' = [xi EXCEPT ![self] = Len(fol[Post(xt[self])])]
              /\ pc' = [pc EXCEPT ![self] = "exd3"]
              /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, res, 
                              count, countdown, emq, rdq, avail, stop, asleep, 
                              waker, tpc, paused, nextw, ret, stack, afe, aff, 
                              at, aw, ne, claimed, nst, nf, nr, st, sa, sr, sw, 
                              it, ir, ip, ik, xt, xr, xk, xc, wt, wx, mi, mk, 
                              mw, ndone, nev >>

exd3(self) == /\ pc[self] = "exd3"
              /\ IF xi[self] > 0
                    THEN /\ IF fol[Post(xt[self])][xi[self]][1] = "pre" /\ ~Serial(xt[self], fol[Post(xt[self])][xi[self]][2])
                               THEN /\ LET f == fol[Post(xt[self])][xi[self]] IN
                                         /\ IF Bug # "narrow_keeps_edge"
                                               THEN /\ fol' = [fol EXCEPT ![Post(xt[self])] = RemoveAt_(fol[Post(xt[self])], xi[self])]
                                               ELSE /\ TRUE
                                                    /\ fol' = fol
                                         /\ /\ claimed' = [claimed EXCEPT ![self] = FALSE]
                                            /\ ne' = [ne EXCEPT ![self] = f]
                                            /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "notify",
                                                                                     pc        |->  "exd4",
                                                                                     nst       |->  nst[self],
                                                                                     nf        |->  nf[self],
                                                                                     nr        |->  nr[self],
                                                                                     ne        |->  ne[self],
                                                                                     claimed   |->  claimed[self] ] >>
                                                                                 \o stack[self]]
                                         /\ nst' = [nst EXCEPT ![self] = 0]
                                         /\ nf' = [nf EXCEPT ![self] = <<>>]
                                         /\ nr' = [nr EXCEPT ![self] = {}]
                                         /\ pc' = [pc EXCEPT ![self] = "nt1"]
                               ELSE /\ pc' = [pc EXCEPT ![self] = "exd4"]
                                    /\ UNCHANGED << fol, stack, ne, claimed, 
                                                    nst, nf, nr >>
                         /\ UNCHANGED << S, ulock >>
                    ELSE /\ ulock' = [r \in Res |-> IF r \in res[xt[self]] /\ Bug # "narrow_unlocked" THEN FALSE ELSE ulock[r]]
                         /\ S' = DemREffect(S, xt[self])
                         /\ pc' = [pc EXCEPT ![self] = "ex4"]
                         /\ UNCHANGED << fol, stack, ne, claimed, nst, nf, nr >>
              /\ UNCHANGED << prog, bad, cnt, flock, users, acc, res, count, 
                              countdown, emq, rdq, avail, stop, asleep, waker, 
                              tpc, paused, nextw, ret, afe, aff, at, aw, st, 
                              sa, sr, sw, it, ir, ip, ik, xt, xr, xi, xk, xc, 
                              wt, wx, mi, mk, mw, ndone, nev >>

exd4(self) == /\ pc[self] = "exd4"
              /\ xi' = [xi EXCEPT ![self] = xi[self] - 1]
              /\ pc' = [pc EXCEPT ![self] = "exd3"]
              /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                              res, count, countdown, emq, rdq, avail, stop, 
                              asleep, waker, tpc, paused, nextw, ret, stack, 
                              afe, aff, at, aw, ne, claimed, nst, nf, nr, st, 
                              sa, sr, sw, it, ir, ip, ik, xt, xr, xk, xc, wt, 
                              wx, mi, mk, mw, ndone, nev >>

execute(self) == ex1(self) \/ ex2(self) \/ ex3(self) \/ ex4(self)
                    \/ ex5(self) \/ exe(self) \/ exk(self) \/ exo(self)
                    \/ exp1(self) \/ exp2(self) \/ exd1(self) \/ exd2(self)
                    \/ exd3(self) \/ exd4(self)

w0(self) == /\ pc[self] = "w0"
            /\ IF stop[self]
                  THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ avail' = avail
                  ELSE /\ avail' = [avail EXCEPT ![self] = TRUE]
                       /\ pc' = [pc EXCEPT ![self] = "w2"]
            /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                            res, count, countdown, emq, rdq, stop, asleep, 
                            waker, tpc, paused, nextw, ret, stack, afe, aff, 
                            at, aw, ne, claimed, nst, nf, nr, st, sa, sr, sw, 
                            it, ir, ip, ik, xt, xr, xi, xk, xc, wt, wx, mi, mk, 
                            mw, ndone, nev >>

w2(self) == /\ pc[self] = "w2"
            /\ ~asleep[self]
            /\ pc' = [pc EXCEPT ![self] = "w3"]
            /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                            res, count, countdown, emq, rdq, avail, stop, 
                            asleep, waker, tpc, paused, nextw, ret, stack, afe, 
                            aff, at, aw, ne, claimed, nst, nf, nr, st, sa, sr, 
                            sw, it, ir, ip, ik, xt, xr, xi, xk, xc, wt, wx, mi, 
                            mk, mw, ndone, nev >>

w3(self) == /\ pc[self] = "w3"
            /\ asleep' = [asleep EXCEPT ![self] = TRUE]
            /\ pc' = [pc EXCEPT ![self] = "w4"]
            /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                            res, count, countdown, emq, rdq, avail, stop, 
                            waker, tpc, paused, nextw, ret, stack, afe, aff, 
                            at, aw, ne, claimed, nst, nf, nr, st, sa, sr, sw, 
                            it, ir, ip, ik, xt, xr, xi, xk, xc, wt, wx, mi, mk, 
                            mw, ndone, nev >>

w4(self) == /\ pc[self] = "w4"
            /\ IF rdq[self] # <<>>
                  THEN /\ wt' = [wt EXCEPT ![self] = Head(rdq[self])]
                       /\ rdq' = [rdq EXCEPT ![self] = Tail(rdq[self])]
                       /\ pc' = [pc EXCEPT ![self] = "wx1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "w5"]
                       /\ UNCHANGED << rdq, wt >>
            /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                            res, count, countdown, emq, avail, stop, asleep, 
                            waker, tpc, paused, nextw, ret, stack, afe, aff, 
                            at, aw, ne, claimed, nst, nf, nr, st, sa, sr, sw, 
                            it, ir, ip, ik, xt, xr, xi, xk, xc, wx, mi, mk, mw, 
                            ndone, nev >>

w5(self) == /\ pc[self] = "w5"
            /\ IF emq[self] = <<>>
                  THEN /\ pc' = [pc EXCEPT ![self] = "w7"]
                       /\ UNCHANGED << cnt, emq, stack, it, ir, ip, ik, wt >>
                  ELSE /\ wt' = [wt EXCEPT ![self] = Head(emq[self])]
                       /\ emq' = [emq EXCEPT ![self] = Tail(emq[self])]
                       /\ cnt' = [cnt EXCEPT ![Pre(wt'[self])] = cnt[Pre(wt'[self])] + 1]
                       /\ /\ it' = [it EXCEPT ![self] = wt'[self]]
                          /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "init_graph",
                                                                   pc        |->  "w5b",
                                                                   ir        |->  ir[self],
                                                                   ip        |->  ip[self],
                                                                   ik        |->  ik[self],
                                                                   it        |->  it[self] ] >>
                                                               \o stack[self]]
                       /\ ir' = [ir EXCEPT ![self] = {}]
                       /\ ip' = [ip EXCEPT ![self] = 0]
                       /\ ik' = [ik EXCEPT ![self] = 0]
                       /\ pc' = [pc EXCEPT ![self] = "ig0"]
            /\ UNCHANGED << prog, S, bad, fol, flock, users, ulock, acc, res, 
                            count, countdown, rdq, avail, stop, asleep, waker, 
                            tpc, paused, nextw, ret, afe, aff, at, aw, ne, 
                            claimed, nst, nf, nr, st, sa, sr, sw, xt, xr, xi, 
                            xk, xc, wx, mi, mk, mw, ndone, nev >>

w5b(self) == /\ pc[self] = "w5b"
             /\ /\ claimed' = [claimed EXCEPT ![self] = TRUE]
                /\ ne' = [ne EXCEPT ![self] = Pre(wt[self])]
                /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "notify",
                                                         pc        |->  "w6",
                                                         nst       |->  nst[self],
                                                         nf        |->  nf[self],
                                                         nr        |->  nr[self],
                                                         ne        |->  ne[self],
                                                         claimed   |->  claimed[self] ] >>
                                                     \o stack[self]]
             /\ nst' = [nst EXCEPT ![self] = 0]
             /\ nf' = [nf EXCEPT ![self] = <<>>]
             /\ nr' = [nr EXCEPT ![self] = {}]
             /\ pc' = [pc EXCEPT ![self] = "nt1"]
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                             res, count, countdown, emq, rdq, avail, stop, 
                             asleep, waker, tpc, paused, nextw, ret, afe, aff, 
                             at, aw, st, sa, sr, sw, it, ir, ip, ik, xt, xr, 
                             xi, xk, xc, wt, wx, mi, mk, mw, ndone, nev >>

w6(self) == /\ pc[self] = "w6"
            /\ IF ret[self] = 1
                  THEN /\ ret' = [ret EXCEPT ![self] = 0]
                       /\ pc' = [pc EXCEPT ![self] = "wx1"]
                       /\ wt' = wt
                  ELSE /\ wt' = [wt EXCEPT ![self] = 0]
                       /\ pc' = [pc EXCEPT ![self] = "w5"]
                       /\ ret' = ret
            /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                            res, count, countdown, emq, rdq, avail, stop, 
                            asleep, waker, tpc, paused, nextw, stack, afe, aff, 
                            at, aw, ne, claimed, nst, nf, nr, st, sa, sr, sw, 
                            it, ir, ip, ik, xt, xr, xi, xk, xc, wx, mi, mk, mw, 
                            ndone, nev >>

w7(self) == /\ pc[self] = "w7"
            /\ avail' = [avail EXCEPT ![self] = TRUE]
            /\ wx' = [wx EXCEPT ![self] = Ws]
            /\ pc' = [pc EXCEPT ![self] = "w8"]
            /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                            res, count, countdown, emq, rdq, stop, asleep, 
                            waker, tpc, paused, nextw, ret, stack, afe, aff, 
                            at, aw, ne, claimed, nst, nf, nr, st, sa, sr, sw, 
                            it, ir, ip, ik, xt, xr, xi, xk, xc, wt, mi, mk, mw, 
                            ndone, nev >>

w8(self) == /\ pc[self] = "w8"
            /\ IF wx[self] # {}
                  THEN /\ LET x == MinOf(wx[self]) IN
                            /\ wx' = [wx EXCEPT ![self] = wx[self] \ {x}]
                            /\ IF ~avail[x]
                                  THEN /\ IF rdq[x] # <<>>
                                             THEN /\ wt' = [wt EXCEPT ![self] = Head(rdq[x])]
                                                  /\ rdq' = [rdq EXCEPT ![x] = Tail(rdq[x])]
                                                  /\ pc' = [pc EXCEPT ![self] = "wx1"]
                                             ELSE /\ IF rdq[self] # <<>>
                                                        THEN /\ wt' = [wt EXCEPT ![self] = Head(rdq[self])]
                                                             /\ rdq' = [rdq EXCEPT ![self] = Tail(rdq[self])]
                                                             /\ pc' = [pc EXCEPT ![self] = "wx1"]
                                                        ELSE /\ pc' = [pc EXCEPT ![self] = "w8"]
                                                             /\ UNCHANGED << rdq, 
                                                                             wt >>
                                  ELSE /\ pc' = [pc EXCEPT ![self] = "w8"]
                                       /\ UNCHANGED << rdq, wt >>
                  ELSE /\ wx' = [wx EXCEPT ![self] = Ws]
                       /\ pc' = [pc EXCEPT ![self] = "w9"]
                       /\ UNCHANGED << rdq, wt >>
            /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                            res, count, countdown, emq, avail, stop, asleep, 
                            waker, tpc, paused, nextw, ret, stack, afe, aff, 
                            at, aw, ne, claimed, nst, nf, nr, st, sa, sr, sw, 
                            it, ir, ip, ik, xt, xr, xi, xk, xc, mi, mk, mw, 
                            ndone, nev >>

w9(self) == /\ pc[self] = "w9"
            /\ IF wx[self] # {}
                  THEN /\ LET x == MinOf(wx[self]) IN
                            IF ~avail[x] /\ (emq[x] # <<>> \/ emq[self] # <<>>)
                               THEN /\ LET y == IF emq[x] # <<>> THEN x ELSE self IN
                                         /\ wx' = [wx EXCEPT ![self] = {}]
                                         /\ wt' = [wt EXCEPT ![self] = Head(emq[y])]
                                         /\ cnt' = [cnt EXCEPT ![Pre(Head(emq[y]))] = cnt[Pre(Head(emq[y]))] + 1]
                                         /\ emq' = [emq EXCEPT ![y] = Tail(emq[y])]
                                         /\ /\ it' = [it EXCEPT ![self] = wt'[self]]
                                            /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "init_graph",
                                                                                     pc        |->  "wb",
                                                                                     ir        |->  ir[self],
                                                                                     ip        |->  ip[self],
                                                                                     ik        |->  ik[self],
                                                                                     it        |->  it[self] ] >>
                                                                                 \o stack[self]]
                                         /\ ir' = [ir EXCEPT ![self] = {}]
                                         /\ ip' = [ip EXCEPT ![self] = 0]
                                         /\ ik' = [ik EXCEPT ![self] = 0]
                                         /\ pc' = [pc EXCEPT ![self] = "ig0"]
                               ELSE /\ wx' = [wx EXCEPT ![self] = wx[self] \ {x}]
                                    /\ pc' = [pc EXCEPT ![self] = "w9"]
                                    /\ UNCHANGED << cnt, emq, stack, it, ir, 
                                                    ip, ik, wt >>
                  ELSE /\ pc' = [pc EXCEPT ![self] = "w0"]
                       /\ UNCHANGED << cnt, emq, stack, it, ir, ip, ik, wt, wx >>
            /\ UNCHANGED << prog, S, bad, fol, flock, users, ulock, acc, res, 
                            count, countdown, rdq, avail, stop, asleep, waker, 
                            tpc, paused, nextw, ret, afe, aff, at, aw, ne, 
                            claimed, nst, nf, nr, st, sa, sr, sw, xt, xr, xi, 
                            xk, xc, mi, mk, mw, ndone, nev >>

wb(self) == /\ pc[self] = "wb"
            /\ /\ claimed' = [claimed EXCEPT ![self] = TRUE]
               /\ ne' = [ne EXCEPT ![self] = Pre(wt[self])]
               /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "notify",
                                                        pc        |->  "wc",
                                                        nst       |->  nst[self],
                                                        nf        |->  nf[self],
                                                        nr        |->  nr[self],
                                                        ne        |->  ne[self],
                                                        claimed   |->  claimed[self] ] >>
                                                    \o stack[self]]
            /\ nst' = [nst EXCEPT ![self] = 0]
            /\ nf' = [nf EXCEPT ![self] = <<>>]
            /\ nr' = [nr EXCEPT ![self] = {}]
            /\ pc' = [pc EXCEPT ![self] = "nt1"]
            /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                            res, count, countdown, emq, rdq, avail, stop, 
                            asleep, waker, tpc, paused, nextw, ret, afe, aff, 
                            at, aw, st, sa, sr, sw, it, ir, ip, ik, xt, xr, xi, 
                            xk, xc, wt, wx, mi, mk, mw, ndone, nev >>

wc(self) == /\ pc[self] = "wc"
            /\ IF ret[self] = 0
                  THEN /\ wt' = [wt EXCEPT ![self] = 0]
                       /\ pc' = [pc EXCEPT ![self] = "w0"]
                       /\ ret' = ret
                  ELSE /\ ret' = [ret EXCEPT ![self] = 0]
                       /\ pc' = [pc EXCEPT ![self] = "wx1"]
                       /\ wt' = wt
            /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                            res, count, countdown, emq, rdq, avail, stop, 
                            asleep, waker, tpc, paused, nextw, stack, afe, aff, 
                            at, aw, ne, claimed, nst, nf, nr, st, sa, sr, sw, 
                            it, ir, ip, ik, xt, xr, xi, xk, xc, wx, mi, mk, mw, 
                            ndone, nev >>

wx1(self) == /\ pc[self] = "wx1"
             /\ wx' = [wx EXCEPT ![self] = {}]
             /\ avail' = [avail EXCEPT ![self] = FALSE]
             /\ /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "execute",
                                                         pc        |->  "wx2",
                                                         xr        |->  xr[self],
                                                         xi        |->  xi[self],
                                                         xk        |->  xk[self],
                                                         xc        |->  xc[self],
                                                         xt        |->  xt[self] ] >>
                                                     \o stack[self]]
                /\ xt' = [xt EXCEPT ![self] = wt[self]]
             /\ xr' = [xr EXCEPT ![self] = {}]
             /\ xi' = [xi EXCEPT ![self] = 0]
             /\ xk' = [xk EXCEPT ![self] = {}]
             /\ xc' = [xc EXCEPT ![self] = <<>>]
             /\ pc' = [pc EXCEPT ![self] = "ex1"]
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                             res, count, countdown, emq, rdq, stop, asleep, 
                             waker, tpc, paused, nextw, ret, afe, aff, at, aw, 
                             ne, claimed, nst, nf, nr, st, sa, sr, sw, it, ir, 
                             ip, ik, wt, mi, mk, mw, ndone, nev >>

wx2(self) == /\ pc[self] = "wx2"
             /\ wt' = [wt EXCEPT ![self] = 0]
             /\ pc' = [pc EXCEPT ![self] = "w4"]
             /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, 
                             res, count, countdown, emq, rdq, avail, stop, 
                             asleep, waker, tpc, paused, nextw, ret, stack, 
                             afe, aff, at, aw, ne, claimed, nst, nf, nr, st, 
                             sa, sr, sw, it, ir, ip, ik, xt, xr, xi, xk, xc, 
                             wx, mi, mk, mw, ndone, nev >>

Worker(self) == w0(self) \/ w2(self) \/ w3(self) \/ w4(self) \/ w5(self)
                   \/ w5b(self) \/ w6(self) \/ w7(self) \/ w8(self)
                   \/ w9(self) \/ wb(self) \/ wc(self) \/ wx1(self)
                   \/ wx2(self)

m1 == /\ pc[Main] = "m1"
      /\ IF mi > Len(prog.main)
            THEN /\ pc' = [pc EXCEPT ![Main] = "mz"]
            ELSE /\ pc' = [pc EXCEPT ![Main] = "m2"]
      /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, res, 
                      count, countdown, emq, rdq, avail, stop, asleep, waker, 
                      tpc, paused, nextw, ret, stack, afe, aff, at, aw, ne, 
                      claimed, nst, nf, nr, st, sa, sr, sw, it, ir, ip, ik, xt, 
                      xr, xi, xk, xc, wt, wx, mi, mk, mw, ndone, nev >>

m2 == /\ pc[Main] = "m2"
      /\ mi' = mi + 1
      /\ IF prog.main[mi' - 1][1] = "submit"
            THEN /\ /\ sa' = [sa EXCEPT ![Main] = 0]
                    /\ st' = [st EXCEPT ![Main] = prog.main[mi' - 1][2]]
                    /\ stack' = [stack EXCEPT ![Main] = << [ procedure |->  "submit",
                                                             pc        |->  "m1",
                                                             sr        |->  sr[Main],
                                                             sw        |->  sw[Main],
                                                             st        |->  st[Main],
                                                             sa        |->  sa[Main] ] >>
                                                         \o stack[Main]]
                 /\ sr' = [sr EXCEPT ![Main] = {}]
                 /\ sw' = [sw EXCEPT ![Main] = 0]
                 /\ pc' = [pc EXCEPT ![Main] = "sb1"]
                 /\ UNCHANGED << S, waker >>
            ELSE /\ S' = GetEffect(S, 0, prog.main[mi' - 1][2])
                 /\ IF Bug # "register_after_check"
                       THEN /\ waker' = [waker EXCEPT ![RSet(prog.main[mi' - 1][2])] = 0]
                       ELSE /\ TRUE
                            /\ waker' = waker
                 /\ pc' = [pc EXCEPT ![Main] = "mg"]
                 /\ UNCHANGED << stack, st, sa, sr, sw >>
      /\ UNCHANGED << prog, bad, cnt, fol, flock, users, ulock, acc, res, 
                      count, countdown, emq, rdq, avail, stop, asleep, tpc, 
                      paused, nextw, ret, afe, aff, at, aw, ne, claimed, nst, 
                      nf, nr, it, ir, ip, ik, xt, xr, xi, xk, xc, wt, wx, mk, 
                      mw, ndone, nev >>

mg == /\ pc[Main] = "mg"
      /\ IF Reached(RSet(prog.main[mi - 1][2]))
            THEN /\ pc' = [pc EXCEPT ![Main] = "mg4"]
            ELSE /\ IF Bug # "register_after_check"
                       THEN /\ pc' = [pc EXCEPT ![Main] = "mg2"]
                       ELSE /\ pc' = [pc EXCEPT ![Main] = "mg1"]
      /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, res, 
                      count, countdown, emq, rdq, avail, stop, asleep, waker, 
                      tpc, paused, nextw, ret, stack, afe, aff, at, aw, ne, 
                      claimed, nst, nf, nr, st, sa, sr, sw, it, ir, ip, ik, xt, 
                      xr, xi, xk, xc, wt, wx, mi, mk, mw, ndone, nev >>

mg1 == /\ pc[Main] = "mg1"
       /\ waker' = [waker EXCEPT ![RSet(prog.main[mi - 1][2])] = 0]
       /\ pc' = [pc EXCEPT ![Main] = "mg2"]
       /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, res, 
                       count, countdown, emq, rdq, avail, stop, asleep, tpc, 
                       paused, nextw, ret, stack, afe, aff, at, aw, ne, 
                       claimed, nst, nf, nr, st, sa, sr, sw, it, ir, ip, ik, 
                       xt, xr, xi, xk, xc, wt, wx, mi, mk, mw, ndone, nev >>

mg2 == /\ pc[Main] = "mg2"
       /\ ~asleep[0]
       /\ pc' = [pc EXCEPT ![Main] = "mg3"]
       /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, res, 
                       count, countdown, emq, rdq, avail, stop, asleep, waker, 
                       tpc, paused, nextw, ret, stack, afe, aff, at, aw, ne, 
                       claimed, nst, nf, nr, st, sa, sr, sw, it, ir, ip, ik, 
                       xt, xr, xi, xk, xc, wt, wx, mi, mk, mw, ndone, nev >>

mg3 == /\ pc[Main] = "mg3"
       /\ asleep' = [asleep EXCEPT ![0] = TRUE]
       /\ pc' = [pc EXCEPT ![Main] = "mg"]
       /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, res, 
                       count, countdown, emq, rdq, avail, stop, waker, tpc, 
                       paused, nextw, ret, stack, afe, aff, at, aw, ne, 
                       claimed, nst, nf, nr, st, sa, sr, sw, it, ir, ip, ik, 
                       xt, xr, xi, xk, xc, wt, wx, mi, mk, mw, ndone, nev >>

mg4 == /\ pc[Main] = "mg4"
       /\ bad' = (bad \cup GetRReasons(S, 0, prog.main[mi - 1][2], 0))
       /\ S' = GetREffect(S, 0, prog.main[mi - 1][2])
       /\ /\ claimed' = [claimed EXCEPT ![Main] = FALSE]
          /\ ne' = [ne EXCEPT ![Main] = RGet(prog.main[mi - 1][2])]
          /\ stack' = [stack EXCEPT ![Main] = << [ procedure |->  "notify",
                                                   pc        |->  "m1",
                                                   nst       |->  nst[Main],
                                                   nf        |->  nf[Main],
                                                   nr        |->  nr[Main],
                                                   ne        |->  ne[Main],
                                                   claimed   |->  claimed[Main] ] >>
                                               \o stack[Main]]
       /\ nst' = [nst EXCEPT ![Main] = 0]
       /\ nf' = [nf EXCEPT ![Main] = <<>>]
       /\ nr' = [nr EXCEPT ![Main] = {}]
       /\ pc' = [pc EXCEPT ![Main] = "nt1"]
       /\ UNCHANGED << prog, cnt, fol, flock, users, ulock, acc, res, count, 
                       countdown, emq, rdq, avail, stop, asleep, waker, tpc, 
                       paused, nextw, ret, afe, aff, at, aw, st, sa, sr, sw, 
                       it, ir, ip, ik, xt, xr, xi, xk, xc, wt, wx, mi, mk, mw, 
                       ndone, nev >>

mz == /\ pc[Main] = "mz"
      /\ mk' = {S.kids[0][i] : i \in DOMAIN S.kids[0]} \ S.given
      /\ S' = [S EXCEPT !.given = @ \cup {S.kids[0][i] : i \in DOMAIN S.kids[0]}]
      /\ pc' = [pc EXCEPT ![Main] = "m3"]
      /\ UNCHANGED << prog, bad, cnt, fol, flock, users, ulock, acc, res, 
                      count, countdown, emq, rdq, avail, stop, asleep, waker, 
                      tpc, paused, nextw, ret, stack, afe, aff, at, aw, ne, 
                      claimed, nst, nf, nr, st, sa, sr, sw, it, ir, ip, ik, xt, 
                      xr, xi, xk, xc, wt, wx, mi, mw, ndone, nev >>

m3 == /\ pc[Main] = "m3"
      /\ IF mk # {}
            THEN /\ mi' = MinOf(mk)
                 /\ mk' = mk \ {MinOf(mk)}
                 /\ /\ claimed' = [claimed EXCEPT ![Main] = FALSE]
                    /\ ne' = [ne EXCEPT ![Main] = RGet(mi')]
                    /\ stack' = [stack EXCEPT ![Main] = << [ procedure |->  "notify",
                                                             pc        |->  "m3",
                                                             nst       |->  nst[Main],
                                                             nf        |->  nf[Main],
                                                             nr        |->  nr[Main],
                                                             ne        |->  ne[Main],
                                                             claimed   |->  claimed[Main] ] >>
                                                         \o stack[Main]]
                 /\ nst' = [nst EXCEPT ![Main] = 0]
                 /\ nf' = [nf EXCEPT ![Main] = <<>>]
                 /\ nr' = [nr EXCEPT ![Main] = {}]
                 /\ pc' = [pc EXCEPT ![Main] = "nt1"]
                 /\ S' = S
            ELSE /\ S' = BarEffect(S)
                 /\ pc' = [pc EXCEPT ![Main] = "m4"]
                 /\ UNCHANGED << stack, ne, claimed, nst, nf, nr, mi, mk >>
      /\ UNCHANGED << prog, bad, cnt, fol, flock, users, ulock, acc, res, 
                      count, countdown, emq, rdq, avail, stop, asleep, waker, 
                      tpc, paused, nextw, ret, afe, aff, at, aw, st, sa, sr, 
                      sw, it, ir, ip, ik, xt, xr, xi, xk, xc, wt, wx, mw, 
                      ndone, nev >>

m4 == /\ pc[Main] = "m4"
      /\ IF count = 0
            THEN /\ pc' = [pc EXCEPT ![Main] = "m7"]
            ELSE /\ pc' = [pc EXCEPT ![Main] = "m5"]
      /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, res, 
                      count, countdown, emq, rdq, avail, stop, asleep, waker, 
                      tpc, paused, nextw, ret, stack, afe, aff, at, aw, ne, 
                      claimed, nst, nf, nr, st, sa, sr, sw, it, ir, ip, ik, xt, 
                      xr, xi, xk, xc, wt, wx, mi, mk, mw, ndone, nev >>

m5 == /\ pc[Main] = "m5"
      /\ ~asleep[0]
      /\ pc' = [pc EXCEPT ![Main] = "m6"]
      /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, res, 
                      count, countdown, emq, rdq, avail, stop, asleep, waker, 
                      tpc, paused, nextw, ret, stack, afe, aff, at, aw, ne, 
                      claimed, nst, nf, nr, st, sa, sr, sw, it, ir, ip, ik, xt, 
                      xr, xi, xk, xc, wt, wx, mi, mk, mw, ndone, nev >>

m6 == /\ pc[Main] = "m6"
      /\ asleep' = [asleep EXCEPT ![0] = TRUE]
      /\ pc' = [pc EXCEPT ![Main] = "m4"]
      /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, res, 
                      count, countdown, emq, rdq, avail, stop, waker, tpc, 
                      paused, nextw, ret, stack, afe, aff, at, aw, ne, claimed, 
                      nst, nf, nr, st, sa, sr, sw, it, ir, ip, ik, xt, xr, xi, 
                      xk, xc, wt, wx, mi, mk, mw, ndone, nev >>

m7 == /\ pc[Main] = "m7"
      /\ bad' = (bad \cup BarRReasons(S))
      /\ S' = BarREffect(S)
      /\ mw' = 1
      /\ Bug = "finalize_ignores_notifier" \/ pc[Notif] = "n0"
      /\ pc' = [pc EXCEPT ![Main] = "m8"]
      /\ UNCHANGED << prog, cnt, fol, flock, users, ulock, acc, res, count, 
                      countdown, emq, rdq, avail, stop, asleep, waker, tpc, 
                      paused, nextw, ret, stack, afe, aff, at, aw, ne, claimed, 
                      nst, nf, nr, st, sa, sr, sw, it, ir, ip, ik, xt, xr, xi, 
                      xk, xc, wt, wx, mi, mk, ndone, nev >>

m8 == /\ pc[Main] = "m8"
      /\ IF mw <= WORKERS
            THEN /\ IF Bug = "wake_before_stop"
                       THEN /\ asleep' = [asleep EXCEPT ![mw] = FALSE]
                            /\ stop' = stop
                       ELSE /\ stop' = [stop EXCEPT ![mw] = TRUE]
                            /\ UNCHANGED asleep
                 /\ pc' = [pc EXCEPT ![Main] = "m9"]
            ELSE /\ pc' = [pc EXCEPT ![Main] = "Done"]
                 /\ UNCHANGED << stop, asleep >>
      /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, res, 
                      count, countdown, emq, rdq, avail, waker, tpc, paused, 
                      nextw, ret, stack, afe, aff, at, aw, ne, claimed, nst, 
                      nf, nr, st, sa, sr, sw, it, ir, ip, ik, xt, xr, xi, xk, 
                      xc, wt, wx, mi, mk, mw, ndone, nev >>

m9 == /\ pc[Main] = "m9"
      /\ IF Bug = "wake_before_stop"
            THEN /\ stop' = [stop EXCEPT ![mw] = TRUE]
                 /\ UNCHANGED asleep
            ELSE /\ asleep' = [asleep EXCEPT ![mw] = FALSE]
                 /\ stop' = stop
      /\ pc' = [pc EXCEPT ![Main] = "ma"]
      /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, res, 
                      count, countdown, emq, rdq, avail, waker, tpc, paused, 
                      nextw, ret, stack, afe, aff, at, aw, ne, claimed, nst, 
                      nf, nr, st, sa, sr, sw, it, ir, ip, ik, xt, xr, xi, xk, 
                      xc, wt, wx, mi, mk, mw, ndone, nev >>

ma == /\ pc[Main] = "ma"
      /\ pc[mw] = "Done"
      /\ mw' = mw + 1
      /\ pc' = [pc EXCEPT ![Main] = "m8"]
      /\ UNCHANGED << prog, S, bad, cnt, fol, flock, users, ulock, acc, res, 
                      count, countdown, emq, rdq, avail, stop, asleep, waker, 
                      tpc, paused, nextw, ret, stack, afe, aff, at, aw, ne, 
                      claimed, nst, nf, nr, st, sa, sr, sw, it, ir, ip, ik, xt, 
                      xr, xi, xk, xc, wt, wx, mi, mk, ndone, nev >>

MainProgram == m1 \/ m2 \/ mg \/ mg1 \/ mg2 \/ mg3 \/ mg4 \/ mz \/ m3 \/ m4
                  \/ m5 \/ m6 \/ m7 \/ m8 \/ m9 \/ ma

n0 == /\ pc[Notif] = "n0"
      /\ \E e \in {x \in Ext : x \notin ndone /\ Owner(S, x) # 0 /\ \E i \in DOMAIN fol[Ev(x)] : fol[Ev(x)][i] = Post(Owner(S, x))}:
           /\ ndone' = (ndone \cup {e})
           /\ nev' = e
           /\ S' = ReachEffect(S, e)
           /\ /\ claimed' = [claimed EXCEPT ![Notif] = FALSE]
              /\ ne' = [ne EXCEPT ![Notif] = Ev(e)]
              /\ stack' = [stack EXCEPT ![Notif] = << [ procedure |->  "notify",
                                                        pc        |->  "n1",
                                                        nst       |->  nst[Notif],
                                                        nf        |->  nf[Notif],
                                                        nr        |->  nr[Notif],
                                                        ne        |->  ne[Notif],
                                                        claimed   |->  claimed[Notif] ] >>
                                                    \o stack[Notif]]
           /\ nst' = [nst EXCEPT ![Notif] = 0]
           /\ nf' = [nf EXCEPT ![Notif] = <<>>]
           /\ nr' = [nr EXCEPT ![Notif] = {}]
           /\ pc' = [pc EXCEPT ![Notif] = "nt1"]
      /\ UNCHANGED << prog, bad, cnt, fol, flock, users, ulock, acc, res, 
                      count, countdown, emq, rdq, avail, stop, asleep, waker, 
                      tpc, paused, nextw, ret, afe, aff, at, aw, st, sa, sr, 
                      sw, it, ir, ip, ik, xt, xr, xi, xk, xc, wt, wx, mi, mk, 
                      mw >>

n1 == /\ pc[Notif] = "n1"
      /\ bad' = (bad \cup (IF pc[1] = "Done" THEN {"finalize.early"} ELSE {}))
      /\ S' = ReachREffect(S, nev)
      /\ pc' = [pc EXCEPT ![Notif] = "n0"]
      /\ UNCHANGED << prog, cnt, fol, flock, users, ulock, acc, res, count, 
                      countdown, emq, rdq, avail, stop, asleep, waker, tpc, 
                      paused, nextw, ret, stack, afe, aff, at, aw, ne, claimed, 
                      nst, nf, nr, st, sa, sr, sw, it, ir, ip, ik, xt, xr, xi, 
                      xk, xc, wt, wx, mi, mk, mw, ndone, nev >>

Notifier == n0 \/ n1

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == MainProgram \/ Notifier
           \/ (\E self \in ProcSet:  \/ add_follower(self) \/ activate(self)
                                     \/ notify(self) \/ submit(self)
                                     \/ init_graph(self) \/ execute(self))
           \/ (\E self \in Ws: Worker(self))
           \/ Terminating

Spec == /\ Init /\ [][Next]_vars
        /\ \A self \in Ws : /\ WF_vars(Worker(self))
                            /\ WF_vars(init_graph(self))
                            /\ WF_vars(notify(self))
                            /\ WF_vars(execute(self))
                            /\ WF_vars(add_follower(self))
                            /\ WF_vars(activate(self))
                            /\ WF_vars(submit(self))
        /\ /\ WF_vars(MainProgram)
           /\ WF_vars(submit(Main))
           /\ WF_vars(notify(Main))
           /\ WF_vars(add_follower(Main))
           /\ WF_vars(activate(Main))
        /\ WF_vars(Notifier) /\ WF_vars(notify(Notif)) /\ WF_vars(activate(Notif))

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION

NextOrEnd == Next \/ (pc[Main] = "Done" /\ UNCHANGED vars)
NothingBroken == bad = {}
\* nobody can take a step any more except the notifier, and that one is not in a call
Idle ==
  /\ \A w \in Ws : pc[w] = "w2" /\ asleep[w]
  /\ pc[Main] \in {"mg2", "m5"} /\ asleep[0]
  /\ pc[Notif] = "n0"
IdleOK == Idle => QReasons(S) = {}
\* threads can only be stuck for the reason that nothing is left to do
MainEnds == <>(pc[Main] = "Done")
=============================================================================
