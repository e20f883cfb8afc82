// Written by tools/mkwide.py.

/// Many watched fields.
#[derive(Deserialize)]
struct WideDrop {
    f0: Option<T>,
    f1: Vec<T>,
    f2: Option<T>,
    #[static_xml(default)] f3: T,
    f4: Option<T>,
    f5: Vec<T>,
    f6: Option<T>,
    #[static_xml(default)] f7: T,
    f8: Option<T>,
    f9: Vec<T>,
    f10: Option<T>,
    #[static_xml(default)] f11: T,
    f12: Option<T>,
    f13: Vec<T>,
    f14: Option<T>,
    #[static_xml(default)] f15: T,
    f16: Option<T>,
    f17: Vec<T>,
    f18: Option<T>,
    #[static_xml(default)] f19: T,
    f20: Option<T>,
    f21: Vec<T>,
    f22: Option<T>,
    #[static_xml(default)] f23: T,
    f24: Option<T>,
    f25: Vec<T>,
    f26: Option<T>,
    #[static_xml(default)] f27: T,
    f28: Option<T>,
    f29: Vec<T>,
    f30: Option<T>,
    #[static_xml(default)] f31: T,
    f32: Option<T>,
    f33: Vec<T>,
    f34: Option<T>,
    #[static_xml(default)] f35: T,
    f36: Option<T>,
    f37: Vec<T>,
    f38: Option<T>,
    #[static_xml(default)] f39: T,
    f40: Option<T>,
    f41: Vec<T>,
    f42: Option<T>,
    #[static_xml(default)] f43: T,
    f44: Option<T>,
    f45: Vec<T>,
    f46: Option<T>,
    #[static_xml(default)] f47: T,
    f48: Option<T>,
    f49: Vec<T>,
    f50: Option<T>,
    #[static_xml(default)] f51: T,
    f52: Option<T>,
    f53: Vec<T>,
    f54: Option<T>,
    #[static_xml(default)] f55: T,
    f56: Option<T>,
    f57: Vec<T>,
    f58: Option<T>,
    #[static_xml(default)] f59: T,
    f60: Option<T>,
    f61: Vec<T>,
    f62: Option<T>,
    #[static_xml(default)] f63: T,
    f64: Option<T>,
    f65: Vec<T>,
    f66: Option<T>,
    #[static_xml(default)] f67: T,
    f68: Option<T>,
    f69: Vec<T>,
}
holds!(WideDrop: f0 f1 f2 f3 f4 f5 f6 f7 f8 f9 f10 f11 f12 f13 f14 f15 f16 f17 f18 f19 f20 f21 f22 f23 f24 f25 f26 f27 f28 f29 f30 f31 f32 f33 f34 f35 f36 f37 f38 f39 f40 f41 f42 f43 f44 f45 f46 f47 f48 f49 f50 f51 f52 f53 f54 f55 f56 f57 f58 f59 f60 f61 f62 f63 f64 f65 f66 f67 f68 f69);
