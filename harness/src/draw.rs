//! Drawings (C23, C24): what a drawing puts on paper.
use crate::core;
use crate::gen::{self, Rng};
use crate::model::*;
use crate::rec;
use crate::txt;
use crate::Ctx;
use dandy_draw::pos2::Pos2;
use dandy_draw::{DrawOptions, Drawer};
use serde_json::{json, Value};

/// A drawer that remembers.
#[derive(Default)]
struct Paper {
    circles: Vec<(Pos2, f32)>,
    texts: Vec<(Pos2, String)>,
    lines: Vec<(Pos2, Pos2)>,
}
impl Drawer for Paper {
    fn start_drawing(&mut self) {}
    fn finish_drawing(&mut self) {}
    fn draw_circle(&mut self, pos: Pos2, radius: f32, _thickness: f32) {
        self.circles.push((pos, radius));
    }
    fn draw_centered_text(&mut self, pos: Pos2, text: &str) {
        self.texts.push((pos, text.to_string()));
    }
    fn draw_rect(&mut self, _upper_left: Pos2, _size: Pos2) {}
    fn draw_line(&mut self, from: Pos2, to: Pos2, _thickness: f32) {
        self.lines.push((from, to));
    }
}

#[derive(Clone)]
struct Opts {
    sx: f32,
    sy: f32,
    ox: f32,
    oy: f32,
    pad: f32,
    r: f32,
    ar: f32,
    il: f32,
    iarm: f32,
    arm: f32,
    from: f32,
    to: f32,
    floor: f32,
    tm: f32,
    gap: f32,
    end: bool,
    mid: bool,
}
const DEFAULT: Opts = Opts {
    sx: 1.0,
    sy: 1.0,
    ox: 0.0,
    oy: 0.0,
    pad: 20.0,
    r: 30.0,
    ar: 25.0,
    il: 50.0,
    iarm: 15.0,
    arm: 5.0,
    from: 15.0,
    to: 15.0,
    floor: 25.0,
    tm: 15.0,
    gap: 10.0,
    end: true,
    mid: true,
};
impl Opts {
    fn real(&self) -> DrawOptions {
        DrawOptions::default()
            .with_x_scale(self.sx)
            .with_y_scale(self.sy)
            .with_x_offset(self.ox)
            .with_y_offset(self.oy)
            .with_center_line_padding(self.pad)
            .with_circle_radius(self.r)
            .with_accepting_circle_radius(self.ar)
            .with_init_arrow_length(self.il)
            .with_init_arrow_arms_length(self.iarm)
            .with_trans_arrow_arms_length(self.arm)
            .with_from_line_offset(self.from)
            .with_to_line_offset(self.to)
            .with_floor_height(self.floor)
            .with_text_margin(self.tm)
            .with_line_circle_margin(self.gap)
            .with_end_arrow(self.end)
            .with_middle_arrow(self.mid)
    }
    fn random(r: &mut Rng) -> Opts {
        let mut o = DEFAULT;
        if r.pct(50) {
            o.sx = *r.pick(&[0.5, 2.0, 4.0, 1.0]);
            o.sy = *r.pick(&[0.5, 2.0, 4.0, 1.0]);
            o.ox = r.below(200) as f32 - 100.0;
            o.oy = r.below(200) as f32 - 100.0;
        }
        if r.pct(70) {
            o.r = (20 + 2 * r.below(20)) as f32;
            o.ar = o.r - 2.0 - r.below(10) as f32;
            o.pad = (12 + r.below(30)) as f32;
            o.il = (20 + r.below(50)) as f32;
            o.iarm = (2 + r.below(10)) as f32;
            o.gap = (o.iarm as usize + r.below(8)) as f32;
            o.arm = (2 + 2 * r.below(3)) as f32;
            o.from = (4 + r.below(12)) as f32;
            o.to = (4 + r.below(12)) as f32;
            o.floor = (20 + r.below(20)) as f32;
            o.tm = (8 + r.below(8)) as f32;
        }
        o.end = r.pct(80);
        o.mid = r.pct(80);
        o
    }
    fn json(&self) -> Value {
        json!({"r": q(self.r), "ar": q(self.ar), "pad": q(self.pad), "gap": q(self.gap), "tm": q(self.tm), "arm": q(self.arm),
            "mid": self.mid, "end": self.end})
    }
}
/// Quarters, so that all coordinates are whole numbers to the specification.
fn q(x: f32) -> i64 {
    let y = x as f64 * 4.0;
    if (y - y.round()).abs() > 0.02 || y.abs() > 1e8 {
        99_999_999
    } else {
        y.round() as i64
    }
}

impl Paper {
    fn json(&self, o: &Opts) -> Value {
        let x = |p: &Pos2| q(p.x / o.sx - o.ox);
        let y = |p: &Pos2| q(p.y / o.sy - o.oy);
        json!({"k": "ok",
            "circles": self.circles.iter().map(|(p, r)| json!({"x": x(p), "y": y(p), "r": q(r / o.sx)})).collect::<Vec<_>>(),
            "texts": self.texts.iter().map(|(p, t)| json!({"x": x(p), "y": y(p), "t": t, "parts": t.split(", ").collect::<Vec<_>>()})).collect::<Vec<_>>(),
            "lines": self.lines.iter().map(|(a, b)| json!({"x1": x(a), "y1": y(a), "x2": x(b), "y2": y(b)})).collect::<Vec<_>>(),
        })
    }
}

fn inputs(c: &mut Ctx) -> Vec<(String, A)> {
    let (s, m) = c.size(150, 30);
    let mut v = core::dfas(c, s, m / 2);
    let gen = std::mem::take(&mut c.gen);
    c.gen = gen.into_iter().filter(|a| !a.dfa).collect();
    v.extend(core::nfas(c, s, m, true));
    for i in 0..c.big(3) {
        // many states with few arrows, and names that get wider along the way
        let n = c.rng.range(33, 70);
        let k = c.rng.range(1, 2);
        let al = gen::syms(&mut c.rng, k);
        let mut a = gen::nfa(&mut c.rng, n, al, true);
        for q in 0..n {
            a.nm[q] = format!("{}{q}", "s".repeat(q / 12 + usize::from(c.rng.pct(10))));
            a.ep[q].clear();
            for x in 0..k {
                a.tr[q][x].clear();
                let to = match c.rng.below(10) {
                    0 => c.rng.below(n),
                    1..=3 => (q + 1) % n,
                    4 => q,
                    5 => q.saturating_sub(c.rng.below(4)),
                    _ => continue,
                };
                if x == 1 && c.rng.pct(30) {
                    a.ep[q].push(to);
                }
                a.tr[q][x].push(to);
            }
        }
        v.push((format!("long/{i}"), a));
    }
    v
}
enum M {
    D(dandy::dfa::Dfa),
    N(dandy::nfa::Nfa),
}
/// The automaton, as it is or after some operation on it.
fn real(r: &mut Rng, a: &A) -> Option<(M, Value)> {
    rec::quiet(|| {
        Some(if a.dfa {
            let mut d = a.real_dfa()?;
            match r.below(6) {
                0 => d.minimize(),
                1 => {
                    d.remove_unreachable_states();
                }
                _ => (),
            }
            let v = odfa(&d);
            (M::D(d), v)
        } else {
            let mut n = a.real_nfa()?;
            if r.pct(10) {
                n.remove_epsilon_moves();
            }
            if r.pct(10) && a.n() < 6 {
                let d = n.to_dfa();
                let v = odfa(&d);
                (M::D(d), v)
            } else {
                let v = onfa(&n);
                (M::N(n), v)
            }
        })
    })
    .flatten()
}

pub fn c23(c: &mut Ctx) {
    for (id, a) in inputs(c) {
        let Some((m, v)) = real(&mut c.rng, &a) else { continue };
        rec::begin(format!("draw/{id}"));
        rec::note(json!({"op": "load", "v": v}));
        for k in 0..2 {
            let o = if k == 0 { DEFAULT } else { Opts::random(&mut c.rng) };
            let plain = k == 0 && c.rng.pct(50);
            rec::call(json!({"op": "draw", "h": 1, "o": o.json()}), || {
                let mut p = Paper::default();
                match (&m, plain) {
                    (M::D(d), true) => dandy_draw::draw_dfa(d, &mut p),
                    (M::D(d), false) => dandy_draw::draw_dfa_with_opts(d, &mut p, o.real()),
                    (M::N(n), true) => dandy_draw::draw_nfa(n, &mut p),
                    (M::N(n), false) => dandy_draw::draw_nfa_with_opts(n, &mut p, o.real()),
                }
                (p.json(&o), ())
            });
        }
        rec::end();
    }
}

pub fn c24(c: &mut Ctx) {
    for (id, a) in inputs(c) {
        let Some((m, v)) = real(&mut c.rng, &a) else { continue };
        rec::begin(format!("ascii/{id}"));
        let cs = |f: &str| v[f].as_array().unwrap().iter().map(|x| txt::chars(x.as_str().unwrap())).collect::<Vec<_>>();
        let (nmc, alc) = (cs("nm"), cs("al"));
        rec::note(json!({"op": "load", "v": v}));
        rec::call(json!({"op": "ascii", "h": 1, "nmc": nmc, "alc": alc}), || {
            let t = match &m {
                M::D(d) => dandy_draw::dfa_ascii_art(d),
                M::N(n) => dandy_draw::nfa_ascii_art(n),
            };
            (json!({"k": "ok", "rows": t.split('\n').map(txt::chars).collect::<Vec<_>>()}), ())
        });
        rec::end();
    }
}
