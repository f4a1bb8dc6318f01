@verbatim
// ---------- references: in bounds, and no rule refers to itself, however indirectly ----------
// (some numbering of the rules of each kind decreases along every reference)
uninterp spec fn pos_rank(pf: PatternFile, i: int) -> nat;
spec fn pos_deep_all(pf: PatternFile, ps: Vec<PosPattern>, k: nat) -> nat decreases ps, k {
    if k == 0 || k > ps@.len() { 0 } else { let a = pos_deep_all(pf, ps, (k - 1) as nat); let b = pos_deep(pf, ps[k - 1]); if a > b { a } else { b } }
}
proof fn lemma_pos_deep_all(pf: PatternFile, ps: Vec<PosPattern>, k: nat, i: int) requires 0 <= i < k <= ps@.len() ensures pos_deep(pf, ps[i]) <= pos_deep_all(pf, ps, k) decreases k { if i < k - 1 { lemma_pos_deep_all(pf, ps, (k - 1) as nat, i); } }
spec fn pos_ok(pf: PatternFile) -> bool { forall|i: int| #![trigger pf.pos_rules@[i]] 0 <= i < pf.pos_rules@.len() ==> pos_refs(pf, pf.pos_rules@[i].pattern) && pos_deep(pf, pf.pos_rules@[i].pattern) <= pos_rank(pf, i) }
uninterp spec fn mtext_rank(pf: PatternFile, i: int) -> nat;
spec fn mtext_deep_all(pf: PatternFile, ps: Vec<MTextPattern>, k: nat) -> nat decreases ps, k {
    if k == 0 || k > ps@.len() { 0 } else { let a = mtext_deep_all(pf, ps, (k - 1) as nat); let b = mtext_deep(pf, ps[k - 1]); if a > b { a } else { b } }
}
proof fn lemma_mtext_deep_all(pf: PatternFile, ps: Vec<MTextPattern>, k: nat, i: int) requires 0 <= i < k <= ps@.len() ensures mtext_deep(pf, ps[i]) <= mtext_deep_all(pf, ps, k) decreases k { if i < k - 1 { lemma_mtext_deep_all(pf, ps, (k - 1) as nat, i); } }
spec fn mtext_ok(pf: PatternFile) -> bool { forall|i: int| #![trigger pf.mtext_rules@[i]] 0 <= i < pf.mtext_rules@.len() ==> mtext_refs(pf, pf.mtext_rules@[i].pattern) && mtext_deep(pf, pf.mtext_rules@[i].pattern) <= mtext_rank(pf, i) }
uninterp spec fn math_rank(pf: PatternFile, i: int) -> nat;
spec fn math_deep_all(pf: PatternFile, ps: Vec<MathPattern>, k: nat) -> nat decreases ps, k {
    if k == 0 || k > ps@.len() { 0 } else { let a = math_deep_all(pf, ps, (k - 1) as nat); let b = math_deep(pf, ps[k - 1]); if a > b { a } else { b } }
}
proof fn lemma_math_deep_all(pf: PatternFile, ps: Vec<MathPattern>, k: nat, i: int) requires 0 <= i < k <= ps@.len() ensures math_deep(pf, ps[i]) <= math_deep_all(pf, ps, k) decreases k { if i < k - 1 { lemma_math_deep_all(pf, ps, (k - 1) as nat, i); } }
spec fn math_ok(pf: PatternFile) -> bool { forall|i: int| #![trigger pf.math_rules@[i]] 0 <= i < pf.math_rules@.len() ==> math_refs(pf, pf.math_rules@[i].pattern) && math_deep(pf, pf.math_rules@[i].pattern) <= math_rank(pf, i) }
uninterp spec fn word_rank(pf: PatternFile, i: int) -> nat;
spec fn word_deep_all(pf: PatternFile, ps: Vec<WordPattern>, k: nat) -> nat decreases ps, k {
    if k == 0 || k > ps@.len() { 0 } else { let a = word_deep_all(pf, ps, (k - 1) as nat); let b = word_deep(pf, ps[k - 1]); if a > b { a } else { b } }
}
proof fn lemma_word_deep_all(pf: PatternFile, ps: Vec<WordPattern>, k: nat, i: int) requires 0 <= i < k <= ps@.len() ensures word_deep(pf, ps[i]) <= word_deep_all(pf, ps, k) decreases k { if i < k - 1 { lemma_word_deep_all(pf, ps, (k - 1) as nat, i); } }
spec fn word_ok(pf: PatternFile) -> bool { forall|i: int| #![trigger pf.word_rules@[i]] 0 <= i < pf.word_rules@.len() ==> word_refs(pf, pf.word_rules@[i].pattern) && word_deep(pf, pf.word_rules@[i].pattern) <= word_rank(pf, i) }
uninterp spec fn seq_rank(pf: PatternFile, i: int) -> nat;
spec fn seq_deep_all(pf: PatternFile, ps: Vec<SequencePattern>, k: nat) -> nat decreases ps, k {
    if k == 0 || k > ps@.len() { 0 } else { let a = seq_deep_all(pf, ps, (k - 1) as nat); let b = seq_deep(pf, ps[k - 1]); if a > b { a } else { b } }
}
proof fn lemma_seq_deep_all(pf: PatternFile, ps: Vec<SequencePattern>, k: nat, i: int) requires 0 <= i < k <= ps@.len() ensures seq_deep(pf, ps[i]) <= seq_deep_all(pf, ps, k) decreases k { if i < k - 1 { lemma_seq_deep_all(pf, ps, (k - 1) as nat, i); } }
spec fn seq_ok(pf: PatternFile) -> bool { forall|i: int| #![trigger pf.sequence_rules@[i]] 0 <= i < pf.sequence_rules@.len() ==> seq_refs(pf, pf.sequence_rules@[i].pattern) && seq_deep(pf, pf.sequence_rules@[i].pattern) <= seq_rank(pf, i) }

spec fn pos_deep(pf: PatternFile, p: PosPattern) -> nat decreases p {
    match p { PosPattern::Pos(_) => 0, PosPattern::PosNot(q) => pos_deep(pf, *q), PosPattern::PosOr(ps) => pos_deep_all(pf, ps, ps@.len()), PosPattern::PosRef(o) => pos_rank(pf, o as int) + 1 }
}
spec fn pos_refs(pf: PatternFile, p: PosPattern) -> bool decreases p {
    match p { PosPattern::Pos(_) => true, PosPattern::PosNot(q) => pos_refs(pf, *q), PosPattern::PosOr(ps) => forall|i: int| 0 <= i < ps@.len() ==> pos_refs(pf, #[trigger] ps[i]), PosPattern::PosRef(o) => o < pf.pos_rules@.len() }
}
proof fn lemma_pos_deep(pf: PatternFile, p: PosPattern) ensures p matches PosPattern::PosOr(ps) ==> forall|i: int| 0 <= i < ps@.len() ==> pos_deep(pf, #[trigger] ps[i]) <= pos_deep(pf, p) { match p { PosPattern::PosOr(ps) => { assert forall|i: int| 0 <= i < ps@.len() implies pos_deep(pf, #[trigger] ps[i]) <= pos_deep(pf, p) by { lemma_pos_deep_all(pf, ps, ps@.len(), i); } } _ => {} } }
spec fn mtext_deep(pf: PatternFile, p: MTextPattern) -> nat decreases p {
    match p { MTextPattern::AnyMText => 0, MTextPattern::MTextLit(_) => 0, MTextPattern::MTextNot(q) => mtext_deep(pf, *q), MTextPattern::MTextOr(ps) => mtext_deep_all(pf, ps, ps@.len()), MTextPattern::MTextRef(o) => mtext_rank(pf, o as int) + 1 }
}
spec fn mtext_refs(pf: PatternFile, p: MTextPattern) -> bool decreases p {
    match p { MTextPattern::AnyMText => true, MTextPattern::MTextLit(_) => true, MTextPattern::MTextNot(q) => mtext_refs(pf, *q), MTextPattern::MTextOr(ps) => forall|i: int| 0 <= i < ps@.len() ==> mtext_refs(pf, #[trigger] ps[i]), MTextPattern::MTextRef(o) => o < pf.mtext_rules@.len() }
}
proof fn lemma_mtext_deep(pf: PatternFile, p: MTextPattern) ensures p matches MTextPattern::MTextOr(ps) ==> forall|i: int| 0 <= i < ps@.len() ==> mtext_deep(pf, #[trigger] ps[i]) <= mtext_deep(pf, p) { match p { MTextPattern::MTextOr(ps) => { assert forall|i: int| 0 <= i < ps@.len() implies mtext_deep(pf, #[trigger] ps[i]) <= mtext_deep(pf, p) by { lemma_mtext_deep_all(pf, ps, ps@.len(), i); } } _ => {} } }
spec fn math_deep(pf: PatternFile, p: MathPattern) -> nat decreases p {
    match p {
        MathPattern::AnyMath => 0, MathPattern::MathRef(o) => math_rank(pf, o as int) + 1, MathPattern::Marked(q, _) => math_deep(pf, *q),
        MathPattern::MathOr(ps) => math_deep_all(pf, ps, ps@.len()), MathPattern::MathDescendant(q, _) => math_deep(pf, *q),
        MathPattern::MathNode(_, _, c) => match c { Some((ps, _)) => math_deep_all(pf, ps, ps@.len()), None => 0 },
    }
}
spec fn math_refs(pf: PatternFile, p: MathPattern) -> bool decreases p {
    match p {
        MathPattern::AnyMath => true, MathPattern::MathRef(o) => o < pf.math_rules@.len(), MathPattern::Marked(q, _) => math_refs(pf, *q),
        MathPattern::MathOr(ps) => forall|i: int| 0 <= i < ps@.len() ==> math_refs(pf, #[trigger] ps[i]), MathPattern::MathDescendant(q, _) => math_refs(pf, *q),
        MathPattern::MathNode(_, t, c) => (t matches Some(o) ==> o < pf.mtext_rules@.len()) && match c { Some((ps, _)) => forall|i: int| 0 <= i < ps@.len() ==> math_refs(pf, #[trigger] ps[i]), None => true },
    }
}
proof fn lemma_math_deep(pf: PatternFile, p: MathPattern) ensures p matches MathPattern::MathOr(ps) ==> forall|i: int| 0 <= i < ps@.len() ==> math_deep(pf, #[trigger] ps[i]) <= math_deep(pf, p), p matches MathPattern::MathNode(_, _, Some((ps, _))) ==> forall|i: int| 0 <= i < ps@.len() ==> math_deep(pf, #[trigger] ps[i]) <= math_deep(pf, p) {
    match p {
        MathPattern::MathOr(ps) => { assert forall|i: int| 0 <= i < ps@.len() implies math_deep(pf, #[trigger] ps[i]) <= math_deep(pf, p) by { lemma_math_deep_all(pf, ps, ps@.len(), i); } }
        MathPattern::MathNode(_, _, Some((ps, _))) => { assert forall|i: int| 0 <= i < ps@.len() implies math_deep(pf, #[trigger] ps[i]) <= math_deep(pf, p) by { lemma_math_deep_all(pf, ps, ps@.len(), i); } }
        _ => {}
    }
}
spec fn word_deep(pf: PatternFile, p: WordPattern) -> nat decreases p {
    match p {
        WordPattern::WordRef(o) => word_rank(pf, o as int) + 1, WordPattern::WordOr(ps) => word_deep_all(pf, ps, ps@.len()), WordPattern::Word(_) => 0, WordPattern::WordPos(_, q) => word_deep(pf, *q),
        WordPattern::MathWord(_) => 0, WordPattern::AnyWord => 0, WordPattern::WordNot(q) => word_deep(pf, *q), WordPattern::Marked(q, _) => word_deep(pf, *q),
    }
}
spec fn word_refs(pf: PatternFile, p: WordPattern) -> bool decreases p {
    match p {
        WordPattern::WordRef(o) => o < pf.word_rules@.len(), WordPattern::WordOr(ps) => forall|i: int| 0 <= i < ps@.len() ==> word_refs(pf, #[trigger] ps[i]), WordPattern::Word(_) => true, WordPattern::WordPos(t, q) => pos_refs(pf, t) && word_refs(pf, *q),
        WordPattern::MathWord(m) => math_refs(pf, m), WordPattern::AnyWord => true, WordPattern::WordNot(q) => word_refs(pf, *q), WordPattern::Marked(q, _) => word_refs(pf, *q),
    }
}
proof fn lemma_word_deep(pf: PatternFile, p: WordPattern) ensures p matches WordPattern::WordOr(ps) ==> forall|i: int| 0 <= i < ps@.len() ==> word_deep(pf, #[trigger] ps[i]) <= word_deep(pf, p) { match p { WordPattern::WordOr(ps) => { assert forall|i: int| 0 <= i < ps@.len() implies word_deep(pf, #[trigger] ps[i]) <= word_deep(pf, p) by { lemma_word_deep_all(pf, ps, ps@.len(), i); } } _ => {} } }
spec fn vx_max(a: nat, b: nat) -> nat { if a > b { a } else { b } }
spec fn seq_deep(pf: PatternFile, p: SequencePattern) -> nat decreases p {
    match p {
        SequencePattern::SeqRef(o) => seq_rank(pf, o as int) + 1, SequencePattern::SeqFromWord(_) => 0, SequencePattern::SeqOfSeq(ps) => seq_deep_all(pf, ps, ps@.len()),
        SequencePattern::Phrase(_, _, s, e) => vx_max(match s { Some((q, _)) => seq_deep(pf, *q), None => 0 }, match e { Some(q) => seq_deep(pf, *q), None => 0 }),
        SequencePattern::Marked(q, _) => seq_deep(pf, *q), SequencePattern::SeqOr(ps, _) => seq_deep_all(pf, ps, ps@.len()),
    }
}
spec fn seq_refs(pf: PatternFile, p: SequencePattern) -> bool decreases p {
    match p {
        SequencePattern::SeqRef(o) => o < pf.sequence_rules@.len(), SequencePattern::SeqFromWord(w) => word_refs(pf, w), SequencePattern::SeqOfSeq(ps) => forall|i: int| 0 <= i < ps@.len() ==> seq_refs(pf, #[trigger] ps[i]),
        SequencePattern::Phrase(_, _, s, e) => (match s { Some((q, _)) => seq_refs(pf, *q), None => true }) && match e { Some(q) => seq_refs(pf, *q), None => true },
        SequencePattern::Marked(q, _) => seq_refs(pf, *q), SequencePattern::SeqOr(ps, _) => forall|i: int| 0 <= i < ps@.len() ==> seq_refs(pf, #[trigger] ps[i]),
    }
}
proof fn lemma_seq_deep(pf: PatternFile, p: SequencePattern) ensures p matches SequencePattern::SeqOfSeq(ps) ==> forall|i: int| 0 <= i < ps@.len() ==> seq_deep(pf, #[trigger] ps[i]) <= seq_deep(pf, p), p matches SequencePattern::SeqOr(ps, _) ==> forall|i: int| 0 <= i < ps@.len() ==> seq_deep(pf, #[trigger] ps[i]) <= seq_deep(pf, p) {
    match p {
        SequencePattern::SeqOfSeq(ps) => { assert forall|i: int| 0 <= i < ps@.len() implies seq_deep(pf, #[trigger] ps[i]) <= seq_deep(pf, p) by { lemma_seq_deep_all(pf, ps, ps@.len(), i); } }
        SequencePattern::SeqOr(ps, _) => { assert forall|i: int| 0 <= i < ps@.len() implies seq_deep(pf, #[trigger] ps[i]) <= seq_deep(pf, p) by { lemma_seq_deep_all(pf, ps, ps@.len(), i); } }
        _ => {}
    }
}
spec fn file_ok(pf: PatternFile) -> bool { pos_ok(pf) && mtext_ok(pf) && math_ok(pf) && word_ok(pf) && seq_ok(pf) }
