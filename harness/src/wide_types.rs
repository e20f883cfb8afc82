// Written by tools/mkwide.py.

use static_xml_derive::{Deserialize, Serialize};

pub const ATTRS: usize = 140;
pub const ELEMS: usize = 270;
pub const MUST: [usize; 13] = [7, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 269];

/// A required field holds 0 to 9, an absent optional or defaulted one nothing.
pub trait Get {
    fn get(&self) -> Option<u8>;
    fn made(v: Option<u8>) -> Self;
}
impl Get for u8 {
    fn get(&self) -> Option<u8> { (*self != 0).then(|| *self) }
    fn made(v: Option<u8>) -> u8 { v.unwrap_or(0) }
}
impl Get for Option<u8> {
    fn get(&self) -> Option<u8> { *self }
    fn made(v: Option<u8>) -> Option<u8> { v }
}
impl Get for Vec<u8> {
    fn get(&self) -> Option<u8> { (!self.is_empty()).then(|| self.iter().sum()) }
    fn made(v: Option<u8>) -> Vec<u8> { v.into_iter().collect() }
}

#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
#[static_xml(rename = "r")]
pub struct WideElems {
    f0: Option<u8>,
    f1: Vec<u8>,
    #[static_xml(default)] f2: u8,
    f3: Option<u8>,
    f4: Option<u8>,
    f5: Vec<u8>,
    #[static_xml(default)] f6: u8,
    f7: u8,
    f8: Option<u8>,
    f9: Vec<u8>,
    #[static_xml(default)] f10: u8,
    f11: Option<u8>,
    f12: Option<u8>,
    f13: Vec<u8>,
    #[static_xml(default)] f14: u8,
    f15: Option<u8>,
    f16: Option<u8>,
    f17: Vec<u8>,
    #[static_xml(default)] f18: u8,
    f19: Option<u8>,
    f20: Option<u8>,
    f21: Vec<u8>,
    #[static_xml(default)] f22: u8,
    f23: Option<u8>,
    f24: Option<u8>,
    f25: Vec<u8>,
    #[static_xml(default)] f26: u8,
    f27: Option<u8>,
    f28: Option<u8>,
    f29: Vec<u8>,
    #[static_xml(default)] f30: u8,
    f31: u8,
    f32: u8,
    f33: Vec<u8>,
    #[static_xml(default)] f34: u8,
    f35: Option<u8>,
    f36: Option<u8>,
    f37: Vec<u8>,
    #[static_xml(default)] f38: u8,
    f39: Option<u8>,
    f40: Option<u8>,
    f41: Vec<u8>,
    #[static_xml(default)] f42: u8,
    f43: Option<u8>,
    f44: Option<u8>,
    f45: Vec<u8>,
    #[static_xml(default)] f46: u8,
    f47: Option<u8>,
    f48: Option<u8>,
    f49: Vec<u8>,
    #[static_xml(default)] f50: u8,
    f51: Option<u8>,
    f52: Option<u8>,
    f53: Vec<u8>,
    #[static_xml(default)] f54: u8,
    f55: Option<u8>,
    f56: Option<u8>,
    f57: Vec<u8>,
    #[static_xml(default)] f58: u8,
    f59: Option<u8>,
    f60: Option<u8>,
    f61: Vec<u8>,
    #[static_xml(default)] f62: u8,
    f63: u8,
    f64: u8,
    f65: u8,
    #[static_xml(default)] f66: u8,
    f67: Option<u8>,
    f68: Option<u8>,
    f69: Vec<u8>,
    #[static_xml(default)] f70: u8,
    f71: Option<u8>,
    f72: Option<u8>,
    f73: Vec<u8>,
    #[static_xml(default)] f74: u8,
    f75: Option<u8>,
    f76: Option<u8>,
    f77: Vec<u8>,
    #[static_xml(default)] f78: u8,
    f79: Option<u8>,
    f80: Option<u8>,
    f81: Vec<u8>,
    #[static_xml(default)] f82: u8,
    f83: Option<u8>,
    f84: Option<u8>,
    f85: Vec<u8>,
    #[static_xml(default)] f86: u8,
    f87: Option<u8>,
    f88: Option<u8>,
    f89: Vec<u8>,
    #[static_xml(default)] f90: u8,
    f91: Option<u8>,
    f92: Option<u8>,
    f93: Vec<u8>,
    #[static_xml(default)] f94: u8,
    f95: Option<u8>,
    f96: Option<u8>,
    f97: Vec<u8>,
    #[static_xml(default)] f98: u8,
    f99: Option<u8>,
    f100: Option<u8>,
    f101: Vec<u8>,
    #[static_xml(default)] f102: u8,
    f103: Option<u8>,
    f104: Option<u8>,
    f105: Vec<u8>,
    #[static_xml(default)] f106: u8,
    f107: Option<u8>,
    f108: Option<u8>,
    f109: Vec<u8>,
    #[static_xml(default)] f110: u8,
    f111: Option<u8>,
    f112: Option<u8>,
    f113: Vec<u8>,
    #[static_xml(default)] f114: u8,
    f115: Option<u8>,
    f116: Option<u8>,
    f117: Vec<u8>,
    #[static_xml(default)] f118: u8,
    f119: Option<u8>,
    f120: Option<u8>,
    f121: Vec<u8>,
    #[static_xml(default)] f122: u8,
    f123: Option<u8>,
    f124: Option<u8>,
    f125: Vec<u8>,
    #[static_xml(default)] f126: u8,
    f127: u8,
    f128: u8,
    f129: u8,
    #[static_xml(default)] f130: u8,
    f131: Option<u8>,
    f132: Option<u8>,
    f133: Vec<u8>,
    #[static_xml(default)] f134: u8,
    f135: Option<u8>,
    f136: Option<u8>,
    f137: Vec<u8>,
    #[static_xml(default)] f138: u8,
    f139: Option<u8>,
    f140: Option<u8>,
    f141: Vec<u8>,
    #[static_xml(default)] f142: u8,
    f143: Option<u8>,
    f144: Option<u8>,
    f145: Vec<u8>,
    #[static_xml(default)] f146: u8,
    f147: Option<u8>,
    f148: Option<u8>,
    f149: Vec<u8>,
    #[static_xml(default)] f150: u8,
    f151: Option<u8>,
    f152: Option<u8>,
    f153: Vec<u8>,
    #[static_xml(default)] f154: u8,
    f155: Option<u8>,
    f156: Option<u8>,
    f157: Vec<u8>,
    #[static_xml(default)] f158: u8,
    f159: Option<u8>,
    f160: Option<u8>,
    f161: Vec<u8>,
    #[static_xml(default)] f162: u8,
    f163: Option<u8>,
    f164: Option<u8>,
    f165: Vec<u8>,
    #[static_xml(default)] f166: u8,
    f167: Option<u8>,
    f168: Option<u8>,
    f169: Vec<u8>,
    #[static_xml(default)] f170: u8,
    f171: Option<u8>,
    f172: Option<u8>,
    f173: Vec<u8>,
    #[static_xml(default)] f174: u8,
    f175: Option<u8>,
    f176: Option<u8>,
    f177: Vec<u8>,
    #[static_xml(default)] f178: u8,
    f179: Option<u8>,
    f180: Option<u8>,
    f181: Vec<u8>,
    #[static_xml(default)] f182: u8,
    f183: Option<u8>,
    f184: Option<u8>,
    f185: Vec<u8>,
    #[static_xml(default)] f186: u8,
    f187: Option<u8>,
    f188: Option<u8>,
    f189: Vec<u8>,
    #[static_xml(default)] f190: u8,
    f191: Option<u8>,
    f192: Option<u8>,
    f193: Vec<u8>,
    #[static_xml(default)] f194: u8,
    f195: Option<u8>,
    f196: Option<u8>,
    f197: Vec<u8>,
    #[static_xml(default)] f198: u8,
    f199: Option<u8>,
    f200: Option<u8>,
    f201: Vec<u8>,
    #[static_xml(default)] f202: u8,
    f203: Option<u8>,
    f204: Option<u8>,
    f205: Vec<u8>,
    #[static_xml(default)] f206: u8,
    f207: Option<u8>,
    f208: Option<u8>,
    f209: Vec<u8>,
    #[static_xml(default)] f210: u8,
    f211: Option<u8>,
    f212: Option<u8>,
    f213: Vec<u8>,
    #[static_xml(default)] f214: u8,
    f215: Option<u8>,
    f216: Option<u8>,
    f217: Vec<u8>,
    #[static_xml(default)] f218: u8,
    f219: Option<u8>,
    f220: Option<u8>,
    f221: Vec<u8>,
    #[static_xml(default)] f222: u8,
    f223: Option<u8>,
    f224: Option<u8>,
    f225: Vec<u8>,
    #[static_xml(default)] f226: u8,
    f227: Option<u8>,
    f228: Option<u8>,
    f229: Vec<u8>,
    #[static_xml(default)] f230: u8,
    f231: Option<u8>,
    f232: Option<u8>,
    f233: Vec<u8>,
    #[static_xml(default)] f234: u8,
    f235: Option<u8>,
    f236: Option<u8>,
    f237: Vec<u8>,
    #[static_xml(default)] f238: u8,
    f239: Option<u8>,
    f240: Option<u8>,
    f241: Vec<u8>,
    #[static_xml(default)] f242: u8,
    f243: Option<u8>,
    f244: Option<u8>,
    f245: Vec<u8>,
    #[static_xml(default)] f246: u8,
    f247: Option<u8>,
    f248: Option<u8>,
    f249: Vec<u8>,
    #[static_xml(default)] f250: u8,
    f251: Option<u8>,
    f252: Option<u8>,
    f253: Vec<u8>,
    #[static_xml(default)] f254: u8,
    f255: u8,
    f256: u8,
    f257: u8,
    #[static_xml(default)] f258: u8,
    f259: Option<u8>,
    f260: Option<u8>,
    f261: Vec<u8>,
    #[static_xml(default)] f262: u8,
    f263: Option<u8>,
    f264: Option<u8>,
    f265: Vec<u8>,
    #[static_xml(default)] f266: u8,
    f267: Option<u8>,
    f268: Option<u8>,
    f269: u8,
}
impl WideElems {
    #[allow(dead_code)]
    pub fn all(&self) -> Vec<Option<u8>> {
        vec![self.f0.get(), self.f1.get(), self.f2.get(), self.f3.get(), self.f4.get(), self.f5.get(), self.f6.get(), self.f7.get(), self.f8.get(), self.f9.get(), self.f10.get(), self.f11.get(), self.f12.get(), self.f13.get(), self.f14.get(), self.f15.get(), self.f16.get(), self.f17.get(), self.f18.get(), self.f19.get(), self.f20.get(), self.f21.get(), self.f22.get(), self.f23.get(), self.f24.get(), self.f25.get(), self.f26.get(), self.f27.get(), self.f28.get(), self.f29.get(), self.f30.get(), self.f31.get(), self.f32.get(), self.f33.get(), self.f34.get(), self.f35.get(), self.f36.get(), self.f37.get(), self.f38.get(), self.f39.get(), self.f40.get(), self.f41.get(), self.f42.get(), self.f43.get(), self.f44.get(), self.f45.get(), self.f46.get(), self.f47.get(), self.f48.get(), self.f49.get(), self.f50.get(), self.f51.get(), self.f52.get(), self.f53.get(), self.f54.get(), self.f55.get(), self.f56.get(), self.f57.get(), self.f58.get(), self.f59.get(), self.f60.get(), self.f61.get(), self.f62.get(), self.f63.get(), self.f64.get(), self.f65.get(), self.f66.get(), self.f67.get(), self.f68.get(), self.f69.get(), self.f70.get(), self.f71.get(), self.f72.get(), self.f73.get(), self.f74.get(), self.f75.get(), self.f76.get(), self.f77.get(), self.f78.get(), self.f79.get(), self.f80.get(), self.f81.get(), self.f82.get(), self.f83.get(), self.f84.get(), self.f85.get(), self.f86.get(), self.f87.get(), self.f88.get(), self.f89.get(), self.f90.get(), self.f91.get(), self.f92.get(), self.f93.get(), self.f94.get(), self.f95.get(), self.f96.get(), self.f97.get(), self.f98.get(), self.f99.get(), self.f100.get(), self.f101.get(), self.f102.get(), self.f103.get(), self.f104.get(), self.f105.get(), self.f106.get(), self.f107.get(), self.f108.get(), self.f109.get(), self.f110.get(), self.f111.get(), self.f112.get(), self.f113.get(), self.f114.get(), self.f115.get(), self.f116.get(), self.f117.get(), self.f118.get(), self.f119.get(), self.f120.get(), self.f121.get(), self.f122.get(), self.f123.get(), self.f124.get(), self.f125.get(), self.f126.get(), self.f127.get(), self.f128.get(), self.f129.get(), self.f130.get(), self.f131.get(), self.f132.get(), self.f133.get(), self.f134.get(), self.f135.get(), self.f136.get(), self.f137.get(), self.f138.get(), self.f139.get(), self.f140.get(), self.f141.get(), self.f142.get(), self.f143.get(), self.f144.get(), self.f145.get(), self.f146.get(), self.f147.get(), self.f148.get(), self.f149.get(), self.f150.get(), self.f151.get(), self.f152.get(), self.f153.get(), self.f154.get(), self.f155.get(), self.f156.get(), self.f157.get(), self.f158.get(), self.f159.get(), self.f160.get(), self.f161.get(), self.f162.get(), self.f163.get(), self.f164.get(), self.f165.get(), self.f166.get(), self.f167.get(), self.f168.get(), self.f169.get(), self.f170.get(), self.f171.get(), self.f172.get(), self.f173.get(), self.f174.get(), self.f175.get(), self.f176.get(), self.f177.get(), self.f178.get(), self.f179.get(), self.f180.get(), self.f181.get(), self.f182.get(), self.f183.get(), self.f184.get(), self.f185.get(), self.f186.get(), self.f187.get(), self.f188.get(), self.f189.get(), self.f190.get(), self.f191.get(), self.f192.get(), self.f193.get(), self.f194.get(), self.f195.get(), self.f196.get(), self.f197.get(), self.f198.get(), self.f199.get(), self.f200.get(), self.f201.get(), self.f202.get(), self.f203.get(), self.f204.get(), self.f205.get(), self.f206.get(), self.f207.get(), self.f208.get(), self.f209.get(), self.f210.get(), self.f211.get(), self.f212.get(), self.f213.get(), self.f214.get(), self.f215.get(), self.f216.get(), self.f217.get(), self.f218.get(), self.f219.get(), self.f220.get(), self.f221.get(), self.f222.get(), self.f223.get(), self.f224.get(), self.f225.get(), self.f226.get(), self.f227.get(), self.f228.get(), self.f229.get(), self.f230.get(), self.f231.get(), self.f232.get(), self.f233.get(), self.f234.get(), self.f235.get(), self.f236.get(), self.f237.get(), self.f238.get(), self.f239.get(), self.f240.get(), self.f241.get(), self.f242.get(), self.f243.get(), self.f244.get(), self.f245.get(), self.f246.get(), self.f247.get(), self.f248.get(), self.f249.get(), self.f250.get(), self.f251.get(), self.f252.get(), self.f253.get(), self.f254.get(), self.f255.get(), self.f256.get(), self.f257.get(), self.f258.get(), self.f259.get(), self.f260.get(), self.f261.get(), self.f262.get(), self.f263.get(), self.f264.get(), self.f265.get(), self.f266.get(), self.f267.get(), self.f268.get(), self.f269.get()]
    }
    #[allow(dead_code)]
    pub fn made(f: impl Fn(usize) -> Option<u8>) -> WideElems {
        WideElems { f0: Get::made(f(0)), f1: Get::made(f(1)), f2: Get::made(f(2)), f3: Get::made(f(3)), f4: Get::made(f(4)), f5: Get::made(f(5)), f6: Get::made(f(6)), f7: Get::made(f(7)), f8: Get::made(f(8)), f9: Get::made(f(9)), f10: Get::made(f(10)), f11: Get::made(f(11)), f12: Get::made(f(12)), f13: Get::made(f(13)), f14: Get::made(f(14)), f15: Get::made(f(15)), f16: Get::made(f(16)), f17: Get::made(f(17)), f18: Get::made(f(18)), f19: Get::made(f(19)), f20: Get::made(f(20)), f21: Get::made(f(21)), f22: Get::made(f(22)), f23: Get::made(f(23)), f24: Get::made(f(24)), f25: Get::made(f(25)), f26: Get::made(f(26)), f27: Get::made(f(27)), f28: Get::made(f(28)), f29: Get::made(f(29)), f30: Get::made(f(30)), f31: Get::made(f(31)), f32: Get::made(f(32)), f33: Get::made(f(33)), f34: Get::made(f(34)), f35: Get::made(f(35)), f36: Get::made(f(36)), f37: Get::made(f(37)), f38: Get::made(f(38)), f39: Get::made(f(39)), f40: Get::made(f(40)), f41: Get::made(f(41)), f42: Get::made(f(42)), f43: Get::made(f(43)), f44: Get::made(f(44)), f45: Get::made(f(45)), f46: Get::made(f(46)), f47: Get::made(f(47)), f48: Get::made(f(48)), f49: Get::made(f(49)), f50: Get::made(f(50)), f51: Get::made(f(51)), f52: Get::made(f(52)), f53: Get::made(f(53)), f54: Get::made(f(54)), f55: Get::made(f(55)), f56: Get::made(f(56)), f57: Get::made(f(57)), f58: Get::made(f(58)), f59: Get::made(f(59)), f60: Get::made(f(60)), f61: Get::made(f(61)), f62: Get::made(f(62)), f63: Get::made(f(63)), f64: Get::made(f(64)), f65: Get::made(f(65)), f66: Get::made(f(66)), f67: Get::made(f(67)), f68: Get::made(f(68)), f69: Get::made(f(69)), f70: Get::made(f(70)), f71: Get::made(f(71)), f72: Get::made(f(72)), f73: Get::made(f(73)), f74: Get::made(f(74)), f75: Get::made(f(75)), f76: Get::made(f(76)), f77: Get::made(f(77)), f78: Get::made(f(78)), f79: Get::made(f(79)), f80: Get::made(f(80)), f81: Get::made(f(81)), f82: Get::made(f(82)), f83: Get::made(f(83)), f84: Get::made(f(84)), f85: Get::made(f(85)), f86: Get::made(f(86)), f87: Get::made(f(87)), f88: Get::made(f(88)), f89: Get::made(f(89)), f90: Get::made(f(90)), f91: Get::made(f(91)), f92: Get::made(f(92)), f93: Get::made(f(93)), f94: Get::made(f(94)), f95: Get::made(f(95)), f96: Get::made(f(96)), f97: Get::made(f(97)), f98: Get::made(f(98)), f99: Get::made(f(99)), f100: Get::made(f(100)), f101: Get::made(f(101)), f102: Get::made(f(102)), f103: Get::made(f(103)), f104: Get::made(f(104)), f105: Get::made(f(105)), f106: Get::made(f(106)), f107: Get::made(f(107)), f108: Get::made(f(108)), f109: Get::made(f(109)), f110: Get::made(f(110)), f111: Get::made(f(111)), f112: Get::made(f(112)), f113: Get::made(f(113)), f114: Get::made(f(114)), f115: Get::made(f(115)), f116: Get::made(f(116)), f117: Get::made(f(117)), f118: Get::made(f(118)), f119: Get::made(f(119)), f120: Get::made(f(120)), f121: Get::made(f(121)), f122: Get::made(f(122)), f123: Get::made(f(123)), f124: Get::made(f(124)), f125: Get::made(f(125)), f126: Get::made(f(126)), f127: Get::made(f(127)), f128: Get::made(f(128)), f129: Get::made(f(129)), f130: Get::made(f(130)), f131: Get::made(f(131)), f132: Get::made(f(132)), f133: Get::made(f(133)), f134: Get::made(f(134)), f135: Get::made(f(135)), f136: Get::made(f(136)), f137: Get::made(f(137)), f138: Get::made(f(138)), f139: Get::made(f(139)), f140: Get::made(f(140)), f141: Get::made(f(141)), f142: Get::made(f(142)), f143: Get::made(f(143)), f144: Get::made(f(144)), f145: Get::made(f(145)), f146: Get::made(f(146)), f147: Get::made(f(147)), f148: Get::made(f(148)), f149: Get::made(f(149)), f150: Get::made(f(150)), f151: Get::made(f(151)), f152: Get::made(f(152)), f153: Get::made(f(153)), f154: Get::made(f(154)), f155: Get::made(f(155)), f156: Get::made(f(156)), f157: Get::made(f(157)), f158: Get::made(f(158)), f159: Get::made(f(159)), f160: Get::made(f(160)), f161: Get::made(f(161)), f162: Get::made(f(162)), f163: Get::made(f(163)), f164: Get::made(f(164)), f165: Get::made(f(165)), f166: Get::made(f(166)), f167: Get::made(f(167)), f168: Get::made(f(168)), f169: Get::made(f(169)), f170: Get::made(f(170)), f171: Get::made(f(171)), f172: Get::made(f(172)), f173: Get::made(f(173)), f174: Get::made(f(174)), f175: Get::made(f(175)), f176: Get::made(f(176)), f177: Get::made(f(177)), f178: Get::made(f(178)), f179: Get::made(f(179)), f180: Get::made(f(180)), f181: Get::made(f(181)), f182: Get::made(f(182)), f183: Get::made(f(183)), f184: Get::made(f(184)), f185: Get::made(f(185)), f186: Get::made(f(186)), f187: Get::made(f(187)), f188: Get::made(f(188)), f189: Get::made(f(189)), f190: Get::made(f(190)), f191: Get::made(f(191)), f192: Get::made(f(192)), f193: Get::made(f(193)), f194: Get::made(f(194)), f195: Get::made(f(195)), f196: Get::made(f(196)), f197: Get::made(f(197)), f198: Get::made(f(198)), f199: Get::made(f(199)), f200: Get::made(f(200)), f201: Get::made(f(201)), f202: Get::made(f(202)), f203: Get::made(f(203)), f204: Get::made(f(204)), f205: Get::made(f(205)), f206: Get::made(f(206)), f207: Get::made(f(207)), f208: Get::made(f(208)), f209: Get::made(f(209)), f210: Get::made(f(210)), f211: Get::made(f(211)), f212: Get::made(f(212)), f213: Get::made(f(213)), f214: Get::made(f(214)), f215: Get::made(f(215)), f216: Get::made(f(216)), f217: Get::made(f(217)), f218: Get::made(f(218)), f219: Get::made(f(219)), f220: Get::made(f(220)), f221: Get::made(f(221)), f222: Get::made(f(222)), f223: Get::made(f(223)), f224: Get::made(f(224)), f225: Get::made(f(225)), f226: Get::made(f(226)), f227: Get::made(f(227)), f228: Get::made(f(228)), f229: Get::made(f(229)), f230: Get::made(f(230)), f231: Get::made(f(231)), f232: Get::made(f(232)), f233: Get::made(f(233)), f234: Get::made(f(234)), f235: Get::made(f(235)), f236: Get::made(f(236)), f237: Get::made(f(237)), f238: Get::made(f(238)), f239: Get::made(f(239)), f240: Get::made(f(240)), f241: Get::made(f(241)), f242: Get::made(f(242)), f243: Get::made(f(243)), f244: Get::made(f(244)), f245: Get::made(f(245)), f246: Get::made(f(246)), f247: Get::made(f(247)), f248: Get::made(f(248)), f249: Get::made(f(249)), f250: Get::made(f(250)), f251: Get::made(f(251)), f252: Get::made(f(252)), f253: Get::made(f(253)), f254: Get::made(f(254)), f255: Get::made(f(255)), f256: Get::made(f(256)), f257: Get::made(f(257)), f258: Get::made(f(258)), f259: Get::made(f(259)), f260: Get::made(f(260)), f261: Get::made(f(261)), f262: Get::made(f(262)), f263: Get::made(f(263)), f264: Get::made(f(264)), f265: Get::made(f(265)), f266: Get::made(f(266)), f267: Get::made(f(267)), f268: Get::made(f(268)), f269: Get::made(f(269)) }
    }
}

#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
#[static_xml(rename = "r", namespace = "p: urn:p")]
pub struct WideAttrs {
    #[static_xml(attribute, prefix = "p")] f0: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f1: u8,
    #[static_xml(attribute, prefix = "p")] f2: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f3: u8,
    #[static_xml(attribute, prefix = "p")] f4: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f5: u8,
    #[static_xml(attribute, prefix = "p")] f6: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f7: u8,
    #[static_xml(attribute, prefix = "p")] f8: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f9: u8,
    #[static_xml(attribute, prefix = "p")] f10: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f11: u8,
    #[static_xml(attribute, prefix = "p")] f12: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f13: u8,
    #[static_xml(attribute, prefix = "p")] f14: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f15: u8,
    #[static_xml(attribute, prefix = "p")] f16: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f17: u8,
    #[static_xml(attribute, prefix = "p")] f18: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f19: u8,
    #[static_xml(attribute, prefix = "p")] f20: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f21: u8,
    #[static_xml(attribute, prefix = "p")] f22: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f23: u8,
    #[static_xml(attribute, prefix = "p")] f24: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f25: u8,
    #[static_xml(attribute, prefix = "p")] f26: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f27: u8,
    #[static_xml(attribute, prefix = "p")] f28: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f29: u8,
    #[static_xml(attribute, prefix = "p")] f30: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f31: u8,
    #[static_xml(attribute, prefix = "p")] f32: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f33: u8,
    #[static_xml(attribute, prefix = "p")] f34: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f35: u8,
    #[static_xml(attribute, prefix = "p")] f36: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f37: u8,
    #[static_xml(attribute, prefix = "p")] f38: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f39: u8,
    #[static_xml(attribute, prefix = "p")] f40: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f41: u8,
    #[static_xml(attribute, prefix = "p")] f42: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f43: u8,
    #[static_xml(attribute, prefix = "p")] f44: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f45: u8,
    #[static_xml(attribute, prefix = "p")] f46: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f47: u8,
    #[static_xml(attribute, prefix = "p")] f48: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f49: u8,
    #[static_xml(attribute, prefix = "p")] f50: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f51: u8,
    #[static_xml(attribute, prefix = "p")] f52: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f53: u8,
    #[static_xml(attribute, prefix = "p")] f54: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f55: u8,
    #[static_xml(attribute, prefix = "p")] f56: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f57: u8,
    #[static_xml(attribute, prefix = "p")] f58: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f59: u8,
    #[static_xml(attribute, prefix = "p")] f60: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f61: u8,
    #[static_xml(attribute, prefix = "p")] f62: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f63: u8,
    #[static_xml(attribute, prefix = "p")] f64: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f65: u8,
    #[static_xml(attribute, prefix = "p")] f66: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f67: u8,
    #[static_xml(attribute, prefix = "p")] f68: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f69: u8,
    #[static_xml(attribute, prefix = "p")] f70: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f71: u8,
    #[static_xml(attribute, prefix = "p")] f72: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f73: u8,
    #[static_xml(attribute, prefix = "p")] f74: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f75: u8,
    #[static_xml(attribute, prefix = "p")] f76: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f77: u8,
    #[static_xml(attribute, prefix = "p")] f78: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f79: u8,
    #[static_xml(attribute, prefix = "p")] f80: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f81: u8,
    #[static_xml(attribute, prefix = "p")] f82: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f83: u8,
    #[static_xml(attribute, prefix = "p")] f84: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f85: u8,
    #[static_xml(attribute, prefix = "p")] f86: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f87: u8,
    #[static_xml(attribute, prefix = "p")] f88: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f89: u8,
    #[static_xml(attribute, prefix = "p")] f90: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f91: u8,
    #[static_xml(attribute, prefix = "p")] f92: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f93: u8,
    #[static_xml(attribute, prefix = "p")] f94: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f95: u8,
    #[static_xml(attribute, prefix = "p")] f96: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f97: u8,
    #[static_xml(attribute, prefix = "p")] f98: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f99: u8,
    #[static_xml(attribute, prefix = "p")] f100: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f101: u8,
    #[static_xml(attribute, prefix = "p")] f102: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f103: u8,
    #[static_xml(attribute, prefix = "p")] f104: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f105: u8,
    #[static_xml(attribute, prefix = "p")] f106: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f107: u8,
    #[static_xml(attribute, prefix = "p")] f108: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f109: u8,
    #[static_xml(attribute, prefix = "p")] f110: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f111: u8,
    #[static_xml(attribute, prefix = "p")] f112: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f113: u8,
    #[static_xml(attribute, prefix = "p")] f114: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f115: u8,
    #[static_xml(attribute, prefix = "p")] f116: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f117: u8,
    #[static_xml(attribute, prefix = "p")] f118: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f119: u8,
    #[static_xml(attribute, prefix = "p")] f120: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f121: u8,
    #[static_xml(attribute, prefix = "p")] f122: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f123: u8,
    #[static_xml(attribute, prefix = "p")] f124: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f125: u8,
    #[static_xml(attribute, prefix = "p")] f126: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f127: u8,
    #[static_xml(attribute, prefix = "p")] f128: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f129: u8,
    #[static_xml(attribute, prefix = "p")] f130: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f131: u8,
    #[static_xml(attribute, prefix = "p")] f132: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f133: u8,
    #[static_xml(attribute, prefix = "p")] f134: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f135: u8,
    #[static_xml(attribute, prefix = "p")] f136: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f137: u8,
    #[static_xml(attribute, prefix = "p")] f138: Option<u8>,
    #[static_xml(attribute, prefix = "p")] #[static_xml(default)] f139: u8,
}
impl WideAttrs {
    #[allow(dead_code)]
    pub fn all(&self) -> Vec<Option<u8>> {
        vec![self.f0.get(), self.f1.get(), self.f2.get(), self.f3.get(), self.f4.get(), self.f5.get(), self.f6.get(), self.f7.get(), self.f8.get(), self.f9.get(), self.f10.get(), self.f11.get(), self.f12.get(), self.f13.get(), self.f14.get(), self.f15.get(), self.f16.get(), self.f17.get(), self.f18.get(), self.f19.get(), self.f20.get(), self.f21.get(), self.f22.get(), self.f23.get(), self.f24.get(), self.f25.get(), self.f26.get(), self.f27.get(), self.f28.get(), self.f29.get(), self.f30.get(), self.f31.get(), self.f32.get(), self.f33.get(), self.f34.get(), self.f35.get(), self.f36.get(), self.f37.get(), self.f38.get(), self.f39.get(), self.f40.get(), self.f41.get(), self.f42.get(), self.f43.get(), self.f44.get(), self.f45.get(), self.f46.get(), self.f47.get(), self.f48.get(), self.f49.get(), self.f50.get(), self.f51.get(), self.f52.get(), self.f53.get(), self.f54.get(), self.f55.get(), self.f56.get(), self.f57.get(), self.f58.get(), self.f59.get(), self.f60.get(), self.f61.get(), self.f62.get(), self.f63.get(), self.f64.get(), self.f65.get(), self.f66.get(), self.f67.get(), self.f68.get(), self.f69.get(), self.f70.get(), self.f71.get(), self.f72.get(), self.f73.get(), self.f74.get(), self.f75.get(), self.f76.get(), self.f77.get(), self.f78.get(), self.f79.get(), self.f80.get(), self.f81.get(), self.f82.get(), self.f83.get(), self.f84.get(), self.f85.get(), self.f86.get(), self.f87.get(), self.f88.get(), self.f89.get(), self.f90.get(), self.f91.get(), self.f92.get(), self.f93.get(), self.f94.get(), self.f95.get(), self.f96.get(), self.f97.get(), self.f98.get(), self.f99.get(), self.f100.get(), self.f101.get(), self.f102.get(), self.f103.get(), self.f104.get(), self.f105.get(), self.f106.get(), self.f107.get(), self.f108.get(), self.f109.get(), self.f110.get(), self.f111.get(), self.f112.get(), self.f113.get(), self.f114.get(), self.f115.get(), self.f116.get(), self.f117.get(), self.f118.get(), self.f119.get(), self.f120.get(), self.f121.get(), self.f122.get(), self.f123.get(), self.f124.get(), self.f125.get(), self.f126.get(), self.f127.get(), self.f128.get(), self.f129.get(), self.f130.get(), self.f131.get(), self.f132.get(), self.f133.get(), self.f134.get(), self.f135.get(), self.f136.get(), self.f137.get(), self.f138.get(), self.f139.get()]
    }
    #[allow(dead_code)]
    pub fn made(f: impl Fn(usize) -> Option<u8>) -> WideAttrs {
        WideAttrs { f0: Get::made(f(0)), f1: Get::made(f(1)), f2: Get::made(f(2)), f3: Get::made(f(3)), f4: Get::made(f(4)), f5: Get::made(f(5)), f6: Get::made(f(6)), f7: Get::made(f(7)), f8: Get::made(f(8)), f9: Get::made(f(9)), f10: Get::made(f(10)), f11: Get::made(f(11)), f12: Get::made(f(12)), f13: Get::made(f(13)), f14: Get::made(f(14)), f15: Get::made(f(15)), f16: Get::made(f(16)), f17: Get::made(f(17)), f18: Get::made(f(18)), f19: Get::made(f(19)), f20: Get::made(f(20)), f21: Get::made(f(21)), f22: Get::made(f(22)), f23: Get::made(f(23)), f24: Get::made(f(24)), f25: Get::made(f(25)), f26: Get::made(f(26)), f27: Get::made(f(27)), f28: Get::made(f(28)), f29: Get::made(f(29)), f30: Get::made(f(30)), f31: Get::made(f(31)), f32: Get::made(f(32)), f33: Get::made(f(33)), f34: Get::made(f(34)), f35: Get::made(f(35)), f36: Get::made(f(36)), f37: Get::made(f(37)), f38: Get::made(f(38)), f39: Get::made(f(39)), f40: Get::made(f(40)), f41: Get::made(f(41)), f42: Get::made(f(42)), f43: Get::made(f(43)), f44: Get::made(f(44)), f45: Get::made(f(45)), f46: Get::made(f(46)), f47: Get::made(f(47)), f48: Get::made(f(48)), f49: Get::made(f(49)), f50: Get::made(f(50)), f51: Get::made(f(51)), f52: Get::made(f(52)), f53: Get::made(f(53)), f54: Get::made(f(54)), f55: Get::made(f(55)), f56: Get::made(f(56)), f57: Get::made(f(57)), f58: Get::made(f(58)), f59: Get::made(f(59)), f60: Get::made(f(60)), f61: Get::made(f(61)), f62: Get::made(f(62)), f63: Get::made(f(63)), f64: Get::made(f(64)), f65: Get::made(f(65)), f66: Get::made(f(66)), f67: Get::made(f(67)), f68: Get::made(f(68)), f69: Get::made(f(69)), f70: Get::made(f(70)), f71: Get::made(f(71)), f72: Get::made(f(72)), f73: Get::made(f(73)), f74: Get::made(f(74)), f75: Get::made(f(75)), f76: Get::made(f(76)), f77: Get::made(f(77)), f78: Get::made(f(78)), f79: Get::made(f(79)), f80: Get::made(f(80)), f81: Get::made(f(81)), f82: Get::made(f(82)), f83: Get::made(f(83)), f84: Get::made(f(84)), f85: Get::made(f(85)), f86: Get::made(f(86)), f87: Get::made(f(87)), f88: Get::made(f(88)), f89: Get::made(f(89)), f90: Get::made(f(90)), f91: Get::made(f(91)), f92: Get::made(f(92)), f93: Get::made(f(93)), f94: Get::made(f(94)), f95: Get::made(f(95)), f96: Get::made(f(96)), f97: Get::made(f(97)), f98: Get::made(f(98)), f99: Get::made(f(99)), f100: Get::made(f(100)), f101: Get::made(f(101)), f102: Get::made(f(102)), f103: Get::made(f(103)), f104: Get::made(f(104)), f105: Get::made(f(105)), f106: Get::made(f(106)), f107: Get::made(f(107)), f108: Get::made(f(108)), f109: Get::made(f(109)), f110: Get::made(f(110)), f111: Get::made(f(111)), f112: Get::made(f(112)), f113: Get::made(f(113)), f114: Get::made(f(114)), f115: Get::made(f(115)), f116: Get::made(f(116)), f117: Get::made(f(117)), f118: Get::made(f(118)), f119: Get::made(f(119)), f120: Get::made(f(120)), f121: Get::made(f(121)), f122: Get::made(f(122)), f123: Get::made(f(123)), f124: Get::made(f(124)), f125: Get::made(f(125)), f126: Get::made(f(126)), f127: Get::made(f(127)), f128: Get::made(f(128)), f129: Get::made(f(129)), f130: Get::made(f(130)), f131: Get::made(f(131)), f132: Get::made(f(132)), f133: Get::made(f(133)), f134: Get::made(f(134)), f135: Get::made(f(135)), f136: Get::made(f(136)), f137: Get::made(f(137)), f138: Get::made(f(138)), f139: Get::made(f(139)) }
    }
}

#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
pub enum WideEnum {
    V0(u8),
    V1,
    V2(Vec<u8>),
    V3(u8),
    V4,
    V5(Vec<u8>),
    V6(u8),
    V7,
    V8(Vec<u8>),
    V9(u8),
    V10,
    V11(Vec<u8>),
    V12(u8),
    V13,
    V14(Vec<u8>),
    V15(u8),
    V16,
    V17(Vec<u8>),
    V18(u8),
    V19,
    V20(Vec<u8>),
    V21(u8),
    V22,
    V23(Vec<u8>),
    V24(u8),
    V25,
    V26(Vec<u8>),
    V27(u8),
    V28,
    V29(Vec<u8>),
    V30(u8),
    V31,
    V32(Vec<u8>),
    V33(u8),
    V34,
    V35(Vec<u8>),
    V36(u8),
    V37,
    V38(Vec<u8>),
    V39(u8),
    V40,
    V41(Vec<u8>),
    V42(u8),
    V43,
    V44(Vec<u8>),
    V45(u8),
    V46,
    V47(Vec<u8>),
    V48(u8),
    V49,
    V50(Vec<u8>),
    V51(u8),
    V52,
    V53(Vec<u8>),
    V54(u8),
    V55,
    V56(Vec<u8>),
    V57(u8),
    V58,
    V59(Vec<u8>),
    V60(u8),
    V61,
    V62(Vec<u8>),
    V63(u8),
    V64,
    V65(Vec<u8>),
    V66(u8),
    V67,
    V68(Vec<u8>),
    V69(u8),
    V70,
    V71(Vec<u8>),
    V72(u8),
    V73,
    V74(Vec<u8>),
    V75(u8),
    V76,
    V77(Vec<u8>),
    V78(u8),
    V79,
    V80(Vec<u8>),
    V81(u8),
    V82,
    V83(Vec<u8>),
    V84(u8),
    V85,
    V86(Vec<u8>),
    V87(u8),
    V88,
    V89(Vec<u8>),
    V90(u8),
    V91,
    V92(Vec<u8>),
    V93(u8),
    V94,
    V95(Vec<u8>),
    V96(u8),
    V97,
    V98(Vec<u8>),
    V99(u8),
    V100,
    V101(Vec<u8>),
    V102(u8),
    V103,
    V104(Vec<u8>),
    V105(u8),
    V106,
    V107(Vec<u8>),
    V108(u8),
    V109,
    V110(Vec<u8>),
    V111(u8),
    V112,
    V113(Vec<u8>),
    V114(u8),
    V115,
    V116(Vec<u8>),
    V117(u8),
    V118,
    V119(Vec<u8>),
    V120(u8),
    V121,
    V122(Vec<u8>),
    V123(u8),
    V124,
    V125(Vec<u8>),
    V126(u8),
    V127,
    V128(Vec<u8>),
    V129(u8),
    V130,
    V131(Vec<u8>),
    V132(u8),
    V133,
    V134(Vec<u8>),
    V135(u8),
    V136,
    V137(Vec<u8>),
    V138(u8),
    V139,
    V140(Vec<u8>),
    V141(u8),
    V142,
    V143(Vec<u8>),
    V144(u8),
    V145,
    V146(Vec<u8>),
    V147(u8),
    V148,
    V149(Vec<u8>),
    V150(u8),
    V151,
    V152(Vec<u8>),
    V153(u8),
    V154,
    V155(Vec<u8>),
    V156(u8),
    V157,
    V158(Vec<u8>),
    V159(u8),
    V160,
    V161(Vec<u8>),
    V162(u8),
    V163,
    V164(Vec<u8>),
    V165(u8),
    V166,
    V167(Vec<u8>),
    V168(u8),
    V169,
    V170(Vec<u8>),
    V171(u8),
    V172,
    V173(Vec<u8>),
    V174(u8),
    V175,
    V176(Vec<u8>),
    V177(u8),
    V178,
    V179(Vec<u8>),
    V180(u8),
    V181,
    V182(Vec<u8>),
    V183(u8),
    V184,
    V185(Vec<u8>),
    V186(u8),
    V187,
    V188(Vec<u8>),
    V189(u8),
    V190,
    V191(Vec<u8>),
    V192(u8),
    V193,
    V194(Vec<u8>),
    V195(u8),
    V196,
    V197(Vec<u8>),
    V198(u8),
    V199,
    V200(Vec<u8>),
    V201(u8),
    V202,
    V203(Vec<u8>),
    V204(u8),
    V205,
    V206(Vec<u8>),
    V207(u8),
    V208,
    V209(Vec<u8>),
    V210(u8),
    V211,
    V212(Vec<u8>),
    V213(u8),
    V214,
    V215(Vec<u8>),
    V216(u8),
    V217,
    V218(Vec<u8>),
    V219(u8),
    V220,
    V221(Vec<u8>),
    V222(u8),
    V223,
    V224(Vec<u8>),
    V225(u8),
    V226,
    V227(Vec<u8>),
    V228(u8),
    V229,
    V230(Vec<u8>),
    V231(u8),
    V232,
    V233(Vec<u8>),
    V234(u8),
    V235,
    V236(Vec<u8>),
    V237(u8),
    V238,
    V239(Vec<u8>),
    V240(u8),
    V241,
    V242(Vec<u8>),
    V243(u8),
    V244,
    V245(Vec<u8>),
    V246(u8),
    V247,
    V248(Vec<u8>),
    V249(u8),
    V250,
    V251(Vec<u8>),
    V252(u8),
    V253,
    V254(Vec<u8>),
    V255(u8),
    V256,
    V257(Vec<u8>),
    V258(u8),
    V259,
    V260(Vec<u8>),
    V261(u8),
    V262,
    V263(Vec<u8>),
    V264(u8),
    V265,
    V266(Vec<u8>),
    V267(u8),
    V268,
    V269(Vec<u8>),
}
impl WideEnum {
    /// The variant's number and its value's, if it has one.
    #[allow(dead_code)]
    pub fn get(&self) -> (usize, u8) {
        match self {
            WideEnum::V0(v) => (0, *v),
            WideEnum::V1 => (1, 0),
            WideEnum::V2(v) => (2, v.get().unwrap_or(0)),
            WideEnum::V3(v) => (3, *v),
            WideEnum::V4 => (4, 0),
            WideEnum::V5(v) => (5, v.get().unwrap_or(0)),
            WideEnum::V6(v) => (6, *v),
            WideEnum::V7 => (7, 0),
            WideEnum::V8(v) => (8, v.get().unwrap_or(0)),
            WideEnum::V9(v) => (9, *v),
            WideEnum::V10 => (10, 0),
            WideEnum::V11(v) => (11, v.get().unwrap_or(0)),
            WideEnum::V12(v) => (12, *v),
            WideEnum::V13 => (13, 0),
            WideEnum::V14(v) => (14, v.get().unwrap_or(0)),
            WideEnum::V15(v) => (15, *v),
            WideEnum::V16 => (16, 0),
            WideEnum::V17(v) => (17, v.get().unwrap_or(0)),
            WideEnum::V18(v) => (18, *v),
            WideEnum::V19 => (19, 0),
            WideEnum::V20(v) => (20, v.get().unwrap_or(0)),
            WideEnum::V21(v) => (21, *v),
            WideEnum::V22 => (22, 0),
            WideEnum::V23(v) => (23, v.get().unwrap_or(0)),
            WideEnum::V24(v) => (24, *v),
            WideEnum::V25 => (25, 0),
            WideEnum::V26(v) => (26, v.get().unwrap_or(0)),
            WideEnum::V27(v) => (27, *v),
            WideEnum::V28 => (28, 0),
            WideEnum::V29(v) => (29, v.get().unwrap_or(0)),
            WideEnum::V30(v) => (30, *v),
            WideEnum::V31 => (31, 0),
            WideEnum::V32(v) => (32, v.get().unwrap_or(0)),
            WideEnum::V33(v) => (33, *v),
            WideEnum::V34 => (34, 0),
            WideEnum::V35(v) => (35, v.get().unwrap_or(0)),
            WideEnum::V36(v) => (36, *v),
            WideEnum::V37 => (37, 0),
            WideEnum::V38(v) => (38, v.get().unwrap_or(0)),
            WideEnum::V39(v) => (39, *v),
            WideEnum::V40 => (40, 0),
            WideEnum::V41(v) => (41, v.get().unwrap_or(0)),
            WideEnum::V42(v) => (42, *v),
            WideEnum::V43 => (43, 0),
            WideEnum::V44(v) => (44, v.get().unwrap_or(0)),
            WideEnum::V45(v) => (45, *v),
            WideEnum::V46 => (46, 0),
            WideEnum::V47(v) => (47, v.get().unwrap_or(0)),
            WideEnum::V48(v) => (48, *v),
            WideEnum::V49 => (49, 0),
            WideEnum::V50(v) => (50, v.get().unwrap_or(0)),
            WideEnum::V51(v) => (51, *v),
            WideEnum::V52 => (52, 0),
            WideEnum::V53(v) => (53, v.get().unwrap_or(0)),
            WideEnum::V54(v) => (54, *v),
            WideEnum::V55 => (55, 0),
            WideEnum::V56(v) => (56, v.get().unwrap_or(0)),
            WideEnum::V57(v) => (57, *v),
            WideEnum::V58 => (58, 0),
            WideEnum::V59(v) => (59, v.get().unwrap_or(0)),
            WideEnum::V60(v) => (60, *v),
            WideEnum::V61 => (61, 0),
            WideEnum::V62(v) => (62, v.get().unwrap_or(0)),
            WideEnum::V63(v) => (63, *v),
            WideEnum::V64 => (64, 0),
            WideEnum::V65(v) => (65, v.get().unwrap_or(0)),
            WideEnum::V66(v) => (66, *v),
            WideEnum::V67 => (67, 0),
            WideEnum::V68(v) => (68, v.get().unwrap_or(0)),
            WideEnum::V69(v) => (69, *v),
            WideEnum::V70 => (70, 0),
            WideEnum::V71(v) => (71, v.get().unwrap_or(0)),
            WideEnum::V72(v) => (72, *v),
            WideEnum::V73 => (73, 0),
            WideEnum::V74(v) => (74, v.get().unwrap_or(0)),
            WideEnum::V75(v) => (75, *v),
            WideEnum::V76 => (76, 0),
            WideEnum::V77(v) => (77, v.get().unwrap_or(0)),
            WideEnum::V78(v) => (78, *v),
            WideEnum::V79 => (79, 0),
            WideEnum::V80(v) => (80, v.get().unwrap_or(0)),
            WideEnum::V81(v) => (81, *v),
            WideEnum::V82 => (82, 0),
            WideEnum::V83(v) => (83, v.get().unwrap_or(0)),
            WideEnum::V84(v) => (84, *v),
            WideEnum::V85 => (85, 0),
            WideEnum::V86(v) => (86, v.get().unwrap_or(0)),
            WideEnum::V87(v) => (87, *v),
            WideEnum::V88 => (88, 0),
            WideEnum::V89(v) => (89, v.get().unwrap_or(0)),
            WideEnum::V90(v) => (90, *v),
            WideEnum::V91 => (91, 0),
            WideEnum::V92(v) => (92, v.get().unwrap_or(0)),
            WideEnum::V93(v) => (93, *v),
            WideEnum::V94 => (94, 0),
            WideEnum::V95(v) => (95, v.get().unwrap_or(0)),
            WideEnum::V96(v) => (96, *v),
            WideEnum::V97 => (97, 0),
            WideEnum::V98(v) => (98, v.get().unwrap_or(0)),
            WideEnum::V99(v) => (99, *v),
            WideEnum::V100 => (100, 0),
            WideEnum::V101(v) => (101, v.get().unwrap_or(0)),
            WideEnum::V102(v) => (102, *v),
            WideEnum::V103 => (103, 0),
            WideEnum::V104(v) => (104, v.get().unwrap_or(0)),
            WideEnum::V105(v) => (105, *v),
            WideEnum::V106 => (106, 0),
            WideEnum::V107(v) => (107, v.get().unwrap_or(0)),
            WideEnum::V108(v) => (108, *v),
            WideEnum::V109 => (109, 0),
            WideEnum::V110(v) => (110, v.get().unwrap_or(0)),
            WideEnum::V111(v) => (111, *v),
            WideEnum::V112 => (112, 0),
            WideEnum::V113(v) => (113, v.get().unwrap_or(0)),
            WideEnum::V114(v) => (114, *v),
            WideEnum::V115 => (115, 0),
            WideEnum::V116(v) => (116, v.get().unwrap_or(0)),
            WideEnum::V117(v) => (117, *v),
            WideEnum::V118 => (118, 0),
            WideEnum::V119(v) => (119, v.get().unwrap_or(0)),
            WideEnum::V120(v) => (120, *v),
            WideEnum::V121 => (121, 0),
            WideEnum::V122(v) => (122, v.get().unwrap_or(0)),
            WideEnum::V123(v) => (123, *v),
            WideEnum::V124 => (124, 0),
            WideEnum::V125(v) => (125, v.get().unwrap_or(0)),
            WideEnum::V126(v) => (126, *v),
            WideEnum::V127 => (127, 0),
            WideEnum::V128(v) => (128, v.get().unwrap_or(0)),
            WideEnum::V129(v) => (129, *v),
            WideEnum::V130 => (130, 0),
            WideEnum::V131(v) => (131, v.get().unwrap_or(0)),
            WideEnum::V132(v) => (132, *v),
            WideEnum::V133 => (133, 0),
            WideEnum::V134(v) => (134, v.get().unwrap_or(0)),
            WideEnum::V135(v) => (135, *v),
            WideEnum::V136 => (136, 0),
            WideEnum::V137(v) => (137, v.get().unwrap_or(0)),
            WideEnum::V138(v) => (138, *v),
            WideEnum::V139 => (139, 0),
            WideEnum::V140(v) => (140, v.get().unwrap_or(0)),
            WideEnum::V141(v) => (141, *v),
            WideEnum::V142 => (142, 0),
            WideEnum::V143(v) => (143, v.get().unwrap_or(0)),
            WideEnum::V144(v) => (144, *v),
            WideEnum::V145 => (145, 0),
            WideEnum::V146(v) => (146, v.get().unwrap_or(0)),
            WideEnum::V147(v) => (147, *v),
            WideEnum::V148 => (148, 0),
            WideEnum::V149(v) => (149, v.get().unwrap_or(0)),
            WideEnum::V150(v) => (150, *v),
            WideEnum::V151 => (151, 0),
            WideEnum::V152(v) => (152, v.get().unwrap_or(0)),
            WideEnum::V153(v) => (153, *v),
            WideEnum::V154 => (154, 0),
            WideEnum::V155(v) => (155, v.get().unwrap_or(0)),
            WideEnum::V156(v) => (156, *v),
            WideEnum::V157 => (157, 0),
            WideEnum::V158(v) => (158, v.get().unwrap_or(0)),
            WideEnum::V159(v) => (159, *v),
            WideEnum::V160 => (160, 0),
            WideEnum::V161(v) => (161, v.get().unwrap_or(0)),
            WideEnum::V162(v) => (162, *v),
            WideEnum::V163 => (163, 0),
            WideEnum::V164(v) => (164, v.get().unwrap_or(0)),
            WideEnum::V165(v) => (165, *v),
            WideEnum::V166 => (166, 0),
            WideEnum::V167(v) => (167, v.get().unwrap_or(0)),
            WideEnum::V168(v) => (168, *v),
            WideEnum::V169 => (169, 0),
            WideEnum::V170(v) => (170, v.get().unwrap_or(0)),
            WideEnum::V171(v) => (171, *v),
            WideEnum::V172 => (172, 0),
            WideEnum::V173(v) => (173, v.get().unwrap_or(0)),
            WideEnum::V174(v) => (174, *v),
            WideEnum::V175 => (175, 0),
            WideEnum::V176(v) => (176, v.get().unwrap_or(0)),
            WideEnum::V177(v) => (177, *v),
            WideEnum::V178 => (178, 0),
            WideEnum::V179(v) => (179, v.get().unwrap_or(0)),
            WideEnum::V180(v) => (180, *v),
            WideEnum::V181 => (181, 0),
            WideEnum::V182(v) => (182, v.get().unwrap_or(0)),
            WideEnum::V183(v) => (183, *v),
            WideEnum::V184 => (184, 0),
            WideEnum::V185(v) => (185, v.get().unwrap_or(0)),
            WideEnum::V186(v) => (186, *v),
            WideEnum::V187 => (187, 0),
            WideEnum::V188(v) => (188, v.get().unwrap_or(0)),
            WideEnum::V189(v) => (189, *v),
            WideEnum::V190 => (190, 0),
            WideEnum::V191(v) => (191, v.get().unwrap_or(0)),
            WideEnum::V192(v) => (192, *v),
            WideEnum::V193 => (193, 0),
            WideEnum::V194(v) => (194, v.get().unwrap_or(0)),
            WideEnum::V195(v) => (195, *v),
            WideEnum::V196 => (196, 0),
            WideEnum::V197(v) => (197, v.get().unwrap_or(0)),
            WideEnum::V198(v) => (198, *v),
            WideEnum::V199 => (199, 0),
            WideEnum::V200(v) => (200, v.get().unwrap_or(0)),
            WideEnum::V201(v) => (201, *v),
            WideEnum::V202 => (202, 0),
            WideEnum::V203(v) => (203, v.get().unwrap_or(0)),
            WideEnum::V204(v) => (204, *v),
            WideEnum::V205 => (205, 0),
            WideEnum::V206(v) => (206, v.get().unwrap_or(0)),
            WideEnum::V207(v) => (207, *v),
            WideEnum::V208 => (208, 0),
            WideEnum::V209(v) => (209, v.get().unwrap_or(0)),
            WideEnum::V210(v) => (210, *v),
            WideEnum::V211 => (211, 0),
            WideEnum::V212(v) => (212, v.get().unwrap_or(0)),
            WideEnum::V213(v) => (213, *v),
            WideEnum::V214 => (214, 0),
            WideEnum::V215(v) => (215, v.get().unwrap_or(0)),
            WideEnum::V216(v) => (216, *v),
            WideEnum::V217 => (217, 0),
            WideEnum::V218(v) => (218, v.get().unwrap_or(0)),
            WideEnum::V219(v) => (219, *v),
            WideEnum::V220 => (220, 0),
            WideEnum::V221(v) => (221, v.get().unwrap_or(0)),
            WideEnum::V222(v) => (222, *v),
            WideEnum::V223 => (223, 0),
            WideEnum::V224(v) => (224, v.get().unwrap_or(0)),
            WideEnum::V225(v) => (225, *v),
            WideEnum::V226 => (226, 0),
            WideEnum::V227(v) => (227, v.get().unwrap_or(0)),
            WideEnum::V228(v) => (228, *v),
            WideEnum::V229 => (229, 0),
            WideEnum::V230(v) => (230, v.get().unwrap_or(0)),
            WideEnum::V231(v) => (231, *v),
            WideEnum::V232 => (232, 0),
            WideEnum::V233(v) => (233, v.get().unwrap_or(0)),
            WideEnum::V234(v) => (234, *v),
            WideEnum::V235 => (235, 0),
            WideEnum::V236(v) => (236, v.get().unwrap_or(0)),
            WideEnum::V237(v) => (237, *v),
            WideEnum::V238 => (238, 0),
            WideEnum::V239(v) => (239, v.get().unwrap_or(0)),
            WideEnum::V240(v) => (240, *v),
            WideEnum::V241 => (241, 0),
            WideEnum::V242(v) => (242, v.get().unwrap_or(0)),
            WideEnum::V243(v) => (243, *v),
            WideEnum::V244 => (244, 0),
            WideEnum::V245(v) => (245, v.get().unwrap_or(0)),
            WideEnum::V246(v) => (246, *v),
            WideEnum::V247 => (247, 0),
            WideEnum::V248(v) => (248, v.get().unwrap_or(0)),
            WideEnum::V249(v) => (249, *v),
            WideEnum::V250 => (250, 0),
            WideEnum::V251(v) => (251, v.get().unwrap_or(0)),
            WideEnum::V252(v) => (252, *v),
            WideEnum::V253 => (253, 0),
            WideEnum::V254(v) => (254, v.get().unwrap_or(0)),
            WideEnum::V255(v) => (255, *v),
            WideEnum::V256 => (256, 0),
            WideEnum::V257(v) => (257, v.get().unwrap_or(0)),
            WideEnum::V258(v) => (258, *v),
            WideEnum::V259 => (259, 0),
            WideEnum::V260(v) => (260, v.get().unwrap_or(0)),
            WideEnum::V261(v) => (261, *v),
            WideEnum::V262 => (262, 0),
            WideEnum::V263(v) => (263, v.get().unwrap_or(0)),
            WideEnum::V264(v) => (264, *v),
            WideEnum::V265 => (265, 0),
            WideEnum::V266(v) => (266, v.get().unwrap_or(0)),
            WideEnum::V267(v) => (267, *v),
            WideEnum::V268 => (268, 0),
            WideEnum::V269(v) => (269, v.get().unwrap_or(0)),
        }
    }
    #[allow(dead_code)]
    pub fn made(i: usize, v: u8) -> WideEnum {
        match i {
            0 => WideEnum::V0(v),
            1 => WideEnum::V1,
            2 => WideEnum::V2(vec![v]),
            3 => WideEnum::V3(v),
            4 => WideEnum::V4,
            5 => WideEnum::V5(vec![v]),
            6 => WideEnum::V6(v),
            7 => WideEnum::V7,
            8 => WideEnum::V8(vec![v]),
            9 => WideEnum::V9(v),
            10 => WideEnum::V10,
            11 => WideEnum::V11(vec![v]),
            12 => WideEnum::V12(v),
            13 => WideEnum::V13,
            14 => WideEnum::V14(vec![v]),
            15 => WideEnum::V15(v),
            16 => WideEnum::V16,
            17 => WideEnum::V17(vec![v]),
            18 => WideEnum::V18(v),
            19 => WideEnum::V19,
            20 => WideEnum::V20(vec![v]),
            21 => WideEnum::V21(v),
            22 => WideEnum::V22,
            23 => WideEnum::V23(vec![v]),
            24 => WideEnum::V24(v),
            25 => WideEnum::V25,
            26 => WideEnum::V26(vec![v]),
            27 => WideEnum::V27(v),
            28 => WideEnum::V28,
            29 => WideEnum::V29(vec![v]),
            30 => WideEnum::V30(v),
            31 => WideEnum::V31,
            32 => WideEnum::V32(vec![v]),
            33 => WideEnum::V33(v),
            34 => WideEnum::V34,
            35 => WideEnum::V35(vec![v]),
            36 => WideEnum::V36(v),
            37 => WideEnum::V37,
            38 => WideEnum::V38(vec![v]),
            39 => WideEnum::V39(v),
            40 => WideEnum::V40,
            41 => WideEnum::V41(vec![v]),
            42 => WideEnum::V42(v),
            43 => WideEnum::V43,
            44 => WideEnum::V44(vec![v]),
            45 => WideEnum::V45(v),
            46 => WideEnum::V46,
            47 => WideEnum::V47(vec![v]),
            48 => WideEnum::V48(v),
            49 => WideEnum::V49,
            50 => WideEnum::V50(vec![v]),
            51 => WideEnum::V51(v),
            52 => WideEnum::V52,
            53 => WideEnum::V53(vec![v]),
            54 => WideEnum::V54(v),
            55 => WideEnum::V55,
            56 => WideEnum::V56(vec![v]),
            57 => WideEnum::V57(v),
            58 => WideEnum::V58,
            59 => WideEnum::V59(vec![v]),
            60 => WideEnum::V60(v),
            61 => WideEnum::V61,
            62 => WideEnum::V62(vec![v]),
            63 => WideEnum::V63(v),
            64 => WideEnum::V64,
            65 => WideEnum::V65(vec![v]),
            66 => WideEnum::V66(v),
            67 => WideEnum::V67,
            68 => WideEnum::V68(vec![v]),
            69 => WideEnum::V69(v),
            70 => WideEnum::V70,
            71 => WideEnum::V71(vec![v]),
            72 => WideEnum::V72(v),
            73 => WideEnum::V73,
            74 => WideEnum::V74(vec![v]),
            75 => WideEnum::V75(v),
            76 => WideEnum::V76,
            77 => WideEnum::V77(vec![v]),
            78 => WideEnum::V78(v),
            79 => WideEnum::V79,
            80 => WideEnum::V80(vec![v]),
            81 => WideEnum::V81(v),
            82 => WideEnum::V82,
            83 => WideEnum::V83(vec![v]),
            84 => WideEnum::V84(v),
            85 => WideEnum::V85,
            86 => WideEnum::V86(vec![v]),
            87 => WideEnum::V87(v),
            88 => WideEnum::V88,
            89 => WideEnum::V89(vec![v]),
            90 => WideEnum::V90(v),
            91 => WideEnum::V91,
            92 => WideEnum::V92(vec![v]),
            93 => WideEnum::V93(v),
            94 => WideEnum::V94,
            95 => WideEnum::V95(vec![v]),
            96 => WideEnum::V96(v),
            97 => WideEnum::V97,
            98 => WideEnum::V98(vec![v]),
            99 => WideEnum::V99(v),
            100 => WideEnum::V100,
            101 => WideEnum::V101(vec![v]),
            102 => WideEnum::V102(v),
            103 => WideEnum::V103,
            104 => WideEnum::V104(vec![v]),
            105 => WideEnum::V105(v),
            106 => WideEnum::V106,
            107 => WideEnum::V107(vec![v]),
            108 => WideEnum::V108(v),
            109 => WideEnum::V109,
            110 => WideEnum::V110(vec![v]),
            111 => WideEnum::V111(v),
            112 => WideEnum::V112,
            113 => WideEnum::V113(vec![v]),
            114 => WideEnum::V114(v),
            115 => WideEnum::V115,
            116 => WideEnum::V116(vec![v]),
            117 => WideEnum::V117(v),
            118 => WideEnum::V118,
            119 => WideEnum::V119(vec![v]),
            120 => WideEnum::V120(v),
            121 => WideEnum::V121,
            122 => WideEnum::V122(vec![v]),
            123 => WideEnum::V123(v),
            124 => WideEnum::V124,
            125 => WideEnum::V125(vec![v]),
            126 => WideEnum::V126(v),
            127 => WideEnum::V127,
            128 => WideEnum::V128(vec![v]),
            129 => WideEnum::V129(v),
            130 => WideEnum::V130,
            131 => WideEnum::V131(vec![v]),
            132 => WideEnum::V132(v),
            133 => WideEnum::V133,
            134 => WideEnum::V134(vec![v]),
            135 => WideEnum::V135(v),
            136 => WideEnum::V136,
            137 => WideEnum::V137(vec![v]),
            138 => WideEnum::V138(v),
            139 => WideEnum::V139,
            140 => WideEnum::V140(vec![v]),
            141 => WideEnum::V141(v),
            142 => WideEnum::V142,
            143 => WideEnum::V143(vec![v]),
            144 => WideEnum::V144(v),
            145 => WideEnum::V145,
            146 => WideEnum::V146(vec![v]),
            147 => WideEnum::V147(v),
            148 => WideEnum::V148,
            149 => WideEnum::V149(vec![v]),
            150 => WideEnum::V150(v),
            151 => WideEnum::V151,
            152 => WideEnum::V152(vec![v]),
            153 => WideEnum::V153(v),
            154 => WideEnum::V154,
            155 => WideEnum::V155(vec![v]),
            156 => WideEnum::V156(v),
            157 => WideEnum::V157,
            158 => WideEnum::V158(vec![v]),
            159 => WideEnum::V159(v),
            160 => WideEnum::V160,
            161 => WideEnum::V161(vec![v]),
            162 => WideEnum::V162(v),
            163 => WideEnum::V163,
            164 => WideEnum::V164(vec![v]),
            165 => WideEnum::V165(v),
            166 => WideEnum::V166,
            167 => WideEnum::V167(vec![v]),
            168 => WideEnum::V168(v),
            169 => WideEnum::V169,
            170 => WideEnum::V170(vec![v]),
            171 => WideEnum::V171(v),
            172 => WideEnum::V172,
            173 => WideEnum::V173(vec![v]),
            174 => WideEnum::V174(v),
            175 => WideEnum::V175,
            176 => WideEnum::V176(vec![v]),
            177 => WideEnum::V177(v),
            178 => WideEnum::V178,
            179 => WideEnum::V179(vec![v]),
            180 => WideEnum::V180(v),
            181 => WideEnum::V181,
            182 => WideEnum::V182(vec![v]),
            183 => WideEnum::V183(v),
            184 => WideEnum::V184,
            185 => WideEnum::V185(vec![v]),
            186 => WideEnum::V186(v),
            187 => WideEnum::V187,
            188 => WideEnum::V188(vec![v]),
            189 => WideEnum::V189(v),
            190 => WideEnum::V190,
            191 => WideEnum::V191(vec![v]),
            192 => WideEnum::V192(v),
            193 => WideEnum::V193,
            194 => WideEnum::V194(vec![v]),
            195 => WideEnum::V195(v),
            196 => WideEnum::V196,
            197 => WideEnum::V197(vec![v]),
            198 => WideEnum::V198(v),
            199 => WideEnum::V199,
            200 => WideEnum::V200(vec![v]),
            201 => WideEnum::V201(v),
            202 => WideEnum::V202,
            203 => WideEnum::V203(vec![v]),
            204 => WideEnum::V204(v),
            205 => WideEnum::V205,
            206 => WideEnum::V206(vec![v]),
            207 => WideEnum::V207(v),
            208 => WideEnum::V208,
            209 => WideEnum::V209(vec![v]),
            210 => WideEnum::V210(v),
            211 => WideEnum::V211,
            212 => WideEnum::V212(vec![v]),
            213 => WideEnum::V213(v),
            214 => WideEnum::V214,
            215 => WideEnum::V215(vec![v]),
            216 => WideEnum::V216(v),
            217 => WideEnum::V217,
            218 => WideEnum::V218(vec![v]),
            219 => WideEnum::V219(v),
            220 => WideEnum::V220,
            221 => WideEnum::V221(vec![v]),
            222 => WideEnum::V222(v),
            223 => WideEnum::V223,
            224 => WideEnum::V224(vec![v]),
            225 => WideEnum::V225(v),
            226 => WideEnum::V226,
            227 => WideEnum::V227(vec![v]),
            228 => WideEnum::V228(v),
            229 => WideEnum::V229,
            230 => WideEnum::V230(vec![v]),
            231 => WideEnum::V231(v),
            232 => WideEnum::V232,
            233 => WideEnum::V233(vec![v]),
            234 => WideEnum::V234(v),
            235 => WideEnum::V235,
            236 => WideEnum::V236(vec![v]),
            237 => WideEnum::V237(v),
            238 => WideEnum::V238,
            239 => WideEnum::V239(vec![v]),
            240 => WideEnum::V240(v),
            241 => WideEnum::V241,
            242 => WideEnum::V242(vec![v]),
            243 => WideEnum::V243(v),
            244 => WideEnum::V244,
            245 => WideEnum::V245(vec![v]),
            246 => WideEnum::V246(v),
            247 => WideEnum::V247,
            248 => WideEnum::V248(vec![v]),
            249 => WideEnum::V249(v),
            250 => WideEnum::V250,
            251 => WideEnum::V251(vec![v]),
            252 => WideEnum::V252(v),
            253 => WideEnum::V253,
            254 => WideEnum::V254(vec![v]),
            255 => WideEnum::V255(v),
            256 => WideEnum::V256,
            257 => WideEnum::V257(vec![v]),
            258 => WideEnum::V258(v),
            259 => WideEnum::V259,
            260 => WideEnum::V260(vec![v]),
            261 => WideEnum::V261(v),
            262 => WideEnum::V262,
            263 => WideEnum::V263(vec![v]),
            264 => WideEnum::V264(v),
            265 => WideEnum::V265,
            266 => WideEnum::V266(vec![v]),
            267 => WideEnum::V267(v),
            268 => WideEnum::V268,
            _ => WideEnum::V269(vec![v]),
        }
    }
}
#[derive(Debug, Clone, PartialEq, Deserialize, Serialize)]
#[static_xml(rename = "r")]
pub struct HasWide {
    #[static_xml(flatten)]
    pub e: WideEnum,
}
