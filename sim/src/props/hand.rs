//! C26: codecs written by users with the helper macros, the tagged traits and references to other codecs.
use super::basic::*;
use crate::codecs::*;
use crate::core::{kind_of, short, Ctx, R};
use crate::feed::*;
use crate::hand::*;
use crate::schema::*;
use crate::{ensure, fail};
use bytecodec::{ByteCount, Decode, ErrorKind};
use std::rc::Rc;

fn part(ctx: &Ctx) -> S {
    let sc = gen_schema(ctx, GenOpt { to_eos: false, reusable: true, pad_ok: false, maxb: false, big: 30, ..GenOpt::dec(ctx.below(3)) });
    if sc.to_eos() {
        Rc::new(Sc::Fix(gen_fix(ctx)))
    } else {
        sc
    }
}

/// Told to start while an item is in progress or waits: it answers as the union itself does.
fn misplaced(ctx: &Ctx, m: &mut Tagged) -> R {
    ctx.fault("misplaced-tag");
    let starts = m.body.starts;
    let r = m.start(ctx.draw(5)).map_err(|e| kind_of(&e));
    ensure!(r == Err(ErrorKind::IncompleteDecoding), "answer-changed", "a start inside a body gives {r:?}");
    ensure!(m.body.starts == starts + 1, "calls", "{} starts instead of one", m.body.starts - starts);
    m.strays += 1;
    Ok(())
}

/// Messages of a tag and a body that is decoded by the alternative the tag names.
fn tagged(ctx: &Ctx) -> R {
    let n = 1 + ctx.below(4);
    let alts: Vec<S> = (0..n).map(|_| part(ctx)).collect();
    let tag = Fix { t: [FixT::U8, FixT::U16, FixT::U32, FixT::U64][ctx.below(4)], le: false };
    let tag: S = Rc::new(Sc::Fix(Fix { le: tag.width() > 1 && ctx.below(2) == 1, ..tag }));
    let tolerant = ctx.below(2) == 0;
    let way = WAYS[ctx.below(4)];
    ctx.abs(&format!("{way:?} {tolerant} {}", alts.iter().map(|a| a.show()).collect::<Vec<_>>().join(" ")));
    ctx.note(|| format!("tag {}, {way:?}, tolerant {tolerant}, alternatives {:?}", tag.show(), alts.iter().map(|a| a.show()).collect::<Vec<_>>()));
    let k = 1 + ctx.below(6);
    let (mut data, mut ends, mut want) = (vec![], vec![], vec![]);
    let mut refused = None;
    for i in 0..k {
        let known = ctx.below(4) != 0;
        let t = if known { ctx.below(n) as u64 } else { (n as u64 + ctx.draw(256 - n as u64)).min(255) };
        ref_enc(&tag, &Val::U(t), &mut data);
        let body = known.then(|| {
            let a = &alts[t as usize];
            let v = gen_val(ctx, a, 30);
            ref_enc(a, &v, &mut data);
            Box::new(v.norm())
        });
        want.push(Val::L(vec![Val::U(t), Val::O(body)]));
        ends.push(data.len());
        if !known {
            ctx.fault("unknown-tag");
            if !tolerant {
                refused = Some(i);
                break;
            }
        }
    }
    let mut cut_at = data.len();
    if ctx.chance(1, 4) {
        cut_at = ctx.below(data.len());
    }
    let stream = &data[..cut_at];
    let whole = ends.iter().filter(|&&e| e <= cut_at).count();
    let env = Env::new(ctx);
    let mut m = Tagged::new(dec(&tag, &env), alts.iter().map(|a| dec(a, &env)).collect(), way, tolerant, ctx.below(2) == 0);
    let mode = announce(ctx, tag.has_maxb() || alts.iter().any(|a| a.has_maxb()));
    let mut feed = Feed::new(ctx, stream, gen_cut(ctx), mode);
    let mut got = vec![];
    let (mut stall, mut tags) = (0, 0);
    while got.len() < want.len() {
        let start = if got.is_empty() { 0 } else { ends[got.len() - 1] };
        if got.len() == whole && start == cut_at {
            // The stream ends between two messages.
            break;
        }
        if m.tagged.is_some() && !m.skipped && !m.is_idle() && ctx.chance(1, 4) {
            misplaced(ctx, &mut m)?;
        }
        if ctx.chance(1, 8) && !m.is_idle() {
            ctx.fault("early-finish");
            match m.finish_decoding() {
                Ok(v) => fail!("early-item", "an item before completion: {}", short(&v)),
                Err(e) => ensure!(kind_of(&e) == ErrorKind::IncompleteDecoding, "early-kind", "too early a request fails with {:?}", kind_of(&e)),
            }
        }
        let (buf, eos) = feed.next();
        let (pos, starts) = (feed.pos, m.body.starts);
        let end = ends[got.len()];
        match m.decode(buf, eos) {
            Ok(c) => {
                env.check()?;
                feed.took(c);
                ctx.ev("tagged", c as u64, u64::from(m.is_idle()));
                ensure!(refused != Some(got.len()) || feed.pos < end, "bad-accepted", "an unknown tag is accepted");
                let most = buf.len().min(end.saturating_sub(pos));
                ensure!(c == most, "consumption", "{c} of {} bytes consumed at {pos}, the message ends at {end}", buf.len());
                ensure!(m.is_idle() || !eos.is_reached(), "eos-missed", "the end inside a message is not reported");
                stall = if c == 0 { stall + 1 } else { 0 };
                ensure!(stall < 60, "stall", "no progress at {pos}");
            }
            Err(e) => {
                env.check()?;
                let k = kind_of(&e);
                if refused == Some(got.len()) && pos + buf.len() >= end {
                    ensure!(k == ErrorKind::InvalidInput, "wrong-kind", "an unknown tag is reported as {k:?}");
                    let s = e.to_string();
                    ensure!(s.contains("tag="), "note-lost", "the note of the caller is missing in {s}");
                } else {
                    ensure!(end > cut_at, "valid-rejected", "message {} is rejected with {k:?}", got.len());
                    ensure!(k == ErrorKind::UnexpectedEos, "wrong-kind", "the end inside a message is reported as {k:?}");
                    ensure!(eos.remaining_bytes() != ByteCount::Unknown, "early-fail", "failed before the end was announced");
                    ctx.fault("truncate");
                }
                break;
            }
        }
        ensure!(m.body.starts <= starts + 1, "calls", "the body was told to start {} times", m.body.starts - starts);
        if m.is_idle() {
            ensure!(feed.pos == end, "early-complete", "complete at {} instead of {end}", feed.pos);
            if !m.skipped && ctx.chance(1, 4) {
                misplaced(ctx, &mut m)?;
            }
            tags += 1;
            ensure!(m.body.starts == tags + m.strays, "calls", "{} tags given instead of {tags}", m.body.starts - m.strays);
            match m.finish_decoding() {
                Ok(v) => got.push(v),
                Err(e) => fail!("valid-rejected", "item refused with {:?}", kind_of(&e)),
            }
            ctx.count_item();
            stall = 0;
        }
    }
    let n = refused.map_or(whole, |r| r.min(whole));
    same_items(&got, &want[..n], "tagged messages")?;
    Ok(())
}

/// Parts that work under grants of their own: a suspended part suspends what it belongs to.
pub fn granted_parts(ctx: &Ctx) -> R {
    let env = Env::new(ctx);
    env.0.granted.set(true);
    if ctx.below(2) == 0 {
        let mut v: Vec<S> = (0..1 + ctx.below(3)).map(|_| part(ctx)).collect();
        v.push(if ctx.below(4) == 0 { gen_schema(ctx, GenOpt { maxb: false, big: 30, ..GenOpt::dec(ctx.below(3)) }) } else { part(ctx) });
        let sc: S = Rc::new(Sc::Tup(v, false));
        let k = if sc.to_eos() || !sc.reusable() { 1 } else { 1 + ctx.below(3) };
        let c = values(ctx, &sc, k, 30);
        c.note(ctx);
        let mut d = dec(&c.sc, &env);
        let mode = gen_eos(ctx, c.self_delim, false);
        let mut feed = Feed::new(ctx, &c.data, gen_cut(ctx), mode);
        let o = DecOpt { ends: Some(c.ends.clone()), partial: true, counts: c.self_delim && ctx.below(2) == 0, ..Default::default() };
        let out = run_decode(ctx, &mut d, &env, &mut feed, c.vals.len(), &o)?;
        if let Some(e) = out.err {
            fail!("valid-rejected", "valid stream rejected with {e:?}");
        }
        return same_items(&out.items, &c.norm(), "parts under grants");
    }
    let sc = gen_schema(ctx, GenOpt { maxb: false, big: 30, json: false, ..GenOpt::enc(ctx.below(4)) });
    let c = values(ctx, &sc, 1 + ctx.below(3), 30);
    c.note(ctx);
    let mut e = enc_codec(&c.sc, &env);
    let mut drain = Drain::new(ctx, None);
    let mut from = 0;
    for (i, v) in c.vals.iter().enumerate() {
        start_ok(&mut e, v.clone())?;
        run_encode(ctx, &mut e, &env, &mut drain, &c.data[from..c.ends[i]])?;
        from = c.ends[i];
        ctx.count_item();
    }
    Ok(())
}

pub fn c26(ctx: &Ctx) -> R {
    match ctx.weighted(&[6, 3, 2]) {
        0 => {}
        1 => return tagged(ctx),
        _ => return granted_parts(ctx),
    }
    ctx.set_by_hand();
    match ctx.below(9) {
        0 => c01(ctx),
        1 => c02(ctx),
        2 => c04(ctx),
        3 => c05(ctx),
        4 => c06(ctx),
        5 => c07(ctx),
        6 => c08(ctx),
        7 => c09(ctx),
        _ => c10(ctx),
    }
}
