//! Order of transparent entries.
use crate::common::*;
use imagequant::{Error, Histogram, RGBA};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    img: Img,
    s: Settings,
    fixed: Vec<Px>,
    hist: bool,
    gamma: f64,
    dither: f32,
    read_first: bool,
}
pub struct P;

fn same(a: &[RGBA], b: &[RGBA]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(&x, &y)| canon(px(x)) == canon(px(y)))
}

pub fn order(pal: &[RGBA], last: bool, posterized: bool, what: &str) -> R {
    if last {
        if pal.iter().any(|p| p.a == 0) {
            ensure!(pal[pal.len() - 1].a == 0, "{what}: a fully transparent entry exists, but the last one is {:?}", px(pal[pal.len() - 1]));
        }
    } else if !posterized {
        if let Some(first_opaque) = pal.iter().position(|p| p.a == 255) {
            if let Some(p) = pal[first_opaque..].iter().position(|p| p.a != 255) {
                return Err(format!("{what}: opaque entry {first_opaque} {:?} comes before entry {} {:?}", px(pal[first_opaque]), first_opaque + p, px(pal[first_opaque + p])));
            }
        }
    }
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const RULE: &'static str = "images with mixed alpha x settings; non-trivial: the palette has both opaque and non-opaque entries (and, with last_index_transparent, a fully transparent one)";
    fn strategy(o: &Opts) -> BoxedStrategy<Case> {
        let crowd = o.mode == "crowd";
        let acolor = (any::<[u8; 3]>(), prop_oneof![3 => Just(255u8), 2 => Just(0u8), 2 => any::<u8>(), 1 => 250u8..=255, 1 => 0u8..5]).prop_map(|(c, a)| [c[0], c[1], c[2], a]);
        let acolors = prop_oneof![prop::collection::vec(acolor.clone(), 2..8), prop::collection::vec(acolor.clone(), 2..60), prop::collection::vec(acolor.clone(), 100..300)];
        (
            if crowd { crowd_img() } else { small_img() },
            acolors,
            settings(),
            prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(acolor, 1..5)],
            any::<bool>(),
            gamma(),
            dither(),
            any::<bool>(),
        )
            .prop_map(move |(mut img, cols, mut s, fixed, hist, gamma, dither, read_first)| {
                img.colors = cols;
                if crowd {
                    s.speed = 10;
                    img.fill = if read_first { Fill::Noise } else { Fill::Noisy(90) };
                } else if matches!(img.fill, Fill::Noise) {
                    img.fill = Fill::Random;
                }
                if let Some((_, max)) = s.quality {
                    s.quality = Some((0, max));
                }
                if s.posterize > 1 && !s.last_transparent {
                    s.posterize = 0;
                }
                Case { img, s, fixed, hist, gamma, dither, read_first }
            })
            .boxed()
    }
    fn check(c: &Case, st: &mut Stats) -> R {
        let attr = c.s.attr();
        let mut img = new_image(&attr, &c.img, c.gamma);
        for &f in &c.fixed {
            img.add_fixed_color(rgba(f)).map_err(e2s)?;
        }
        let r = if c.hist {
            let mut h = Histogram::new(&attr);
            h.add_image(&attr, &mut img).map_err(e2s)?;
            h.quantize(&attr)
        } else {
            attr.quantize(&mut img)
        };
        let mut res = match r {
            Ok(r) => r,
            Err(Error::QualityTooLow) => return Ok(()),
            Err(e) => return Err(format!("quantize: {e:?}")),
        };
        let p = c.s.posterize > 0;
        let last = c.s.last_transparent;
        let pal0 = res.clone().palette_vec();
        order(&pal0, last, p, "quantized palette")?;
        if c.read_first {
            ensure!(same(res.palette(), &pal0), "palette of a clone differs");
        }
        // undithered remapping keeps palette and order; dithered one too if the palette can't be refined
        res.set_dithering_level(0.).map_err(e2s)?;
        let mut im = new_image(&attr, &c.img, c.gamma);
        let (pal, idx) = res.remapped(&mut im).map_err(e2s)?;
        ensure!(same(&pal, &pal0), "an undithered remap changed the palette {:?} to {:?}", pal0, pal);
        order(&pal, last, p, "remapped palette")?;
        check_indices(&pal, &idx, c.img.n(), c.s.max_colors as usize)?;
        if c.dither > 0. {
            res.set_dithering_level(c.dither).map_err(e2s)?;
            let mut im = new_image(&attr, &c.img, c.gamma);
            let (pal, idx) = res.remapped(&mut im).map_err(e2s)?;
            check_indices(&pal, &idx, c.img.n(), c.s.max_colors as usize)?;
            ensure!(pal.len() == pal0.len(), "a dithered remap changed the length of the palette");
            if c.hist || c.s.speed > 6 {
                ensure!(same(&pal, &pal0), "remapping changed a palette that isn't refined");
            }
        }
        let has = |f: &dyn Fn(&RGBA) -> bool| pal0.iter().any(f);
        let mixed = has(&|p| p.a == 255) && has(&|p| p.a < 255);
        let transp = has(&|p| p.a == 0);
        if mixed { st.label("opaque and non-opaque"); }
        if transp { st.label(if last { "transparent, last" } else { "transparent, first" }); }
        st.nontrivial(mixed && (!last || transp));
        Ok(())
    }
}
