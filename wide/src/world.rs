// Written by gen.py.
use crate::*;

ecs_world! {
    ecs_name!(Huge);
    #[archetype_id(11)]
    ecs_archetype!(Arch0, Tag, X, Y);
    #[archetype_id(48)]
    ecs_archetype!(Arch1, Tag);
    #[archetype_id(85)]
    ecs_archetype!(Arch2, Tag);
    #[archetype_id(122)]
    ecs_archetype!(Arch3, Tag, X);
    #[archetype_id(159)]
    ecs_archetype!(Arch4, Tag);
    #[archetype_id(196)]
    ecs_archetype!(Arch5, Tag);
    #[archetype_id(233)]
    ecs_archetype!(Arch6, Tag, X);
    #[archetype_id(14)]
    ecs_archetype!(Arch7, Tag, Y);
    #[archetype_id(51)]
    ecs_archetype!(Arch8, Tag);
    #[archetype_id(88)]
    ecs_archetype!(Arch9, Tag, X);
    #[archetype_id(125)]
    ecs_archetype!(Arch10, Tag);
    #[archetype_id(162)]
    ecs_archetype!(Arch11, Tag);
    #[archetype_id(199)]
    ecs_archetype!(Arch12, Tag, X);
    #[archetype_id(236)]
    ecs_archetype!(Arch13, Tag);
    #[archetype_id(17)]
    ecs_archetype!(Arch14, Tag, Y);
    #[archetype_id(54)]
    ecs_archetype!(Arch15, Tag, X);
    #[archetype_id(91)]
    ecs_archetype!(Arch16, Tag);
    #[archetype_id(128)]
    ecs_archetype!(Arch17, Tag);
    #[archetype_id(165)]
    ecs_archetype!(Arch18, Tag, X);
    #[archetype_id(202)]
    ecs_archetype!(Arch19, Tag);
    #[archetype_id(239)]
    ecs_archetype!(Arch20, Tag);
    #[archetype_id(20)]
    ecs_archetype!(Arch21, Tag, X, Y);
    #[archetype_id(57)]
    ecs_archetype!(Arch22, Tag);
    #[archetype_id(94)]
    ecs_archetype!(Arch23, Tag);
    #[archetype_id(131)]
    ecs_archetype!(Arch24, Tag, X);
    #[archetype_id(168)]
    ecs_archetype!(Arch25, Tag);
    #[archetype_id(205)]
    ecs_archetype!(Arch26, Tag);
    #[archetype_id(242)]
    ecs_archetype!(Arch27, Tag, X);
    #[archetype_id(23)]
    ecs_archetype!(Arch28, Tag, Y);
    #[archetype_id(60)]
    ecs_archetype!(Arch29, Tag);
    #[archetype_id(97)]
    ecs_archetype!(Arch30, Tag, X);
    #[archetype_id(134)]
    ecs_archetype!(Arch31, Tag);
    #[archetype_id(171)]
    ecs_archetype!(Arch32, Tag);
    #[archetype_id(208)]
    ecs_archetype!(Arch33, Tag, X);
    #[archetype_id(245)]
    ecs_archetype!(Arch34, Tag);
    #[archetype_id(26)]
    ecs_archetype!(Arch35, Tag, Y);
    #[archetype_id(63)]
    ecs_archetype!(Arch36, Tag, X);
    #[archetype_id(100)]
    ecs_archetype!(Arch37, Tag);
    #[archetype_id(137)]
    ecs_archetype!(Arch38, Tag);
    #[archetype_id(174)]
    ecs_archetype!(Arch39, Tag, X);
    #[archetype_id(211)]
    ecs_archetype!(Arch40, Tag);
    #[archetype_id(248)]
    ecs_archetype!(Arch41, Tag);
    #[archetype_id(29)]
    ecs_archetype!(Arch42, Tag, X, Y);
    #[archetype_id(66)]
    ecs_archetype!(Arch43, Tag);
    #[archetype_id(103)]
    ecs_archetype!(Arch44, Tag);
    #[archetype_id(140)]
    ecs_archetype!(Arch45, Tag, X);
    #[archetype_id(177)]
    ecs_archetype!(Arch46, Tag);
    #[archetype_id(214)]
    ecs_archetype!(Arch47, Tag);
    #[archetype_id(251)]
    ecs_archetype!(Arch48, Tag, X);
    #[archetype_id(32)]
    ecs_archetype!(Arch49, Tag, Y);
    #[archetype_id(69)]
    ecs_archetype!(Arch50, Tag);
    #[archetype_id(106)]
    ecs_archetype!(Arch51, Tag, X);
    #[archetype_id(143)]
    ecs_archetype!(Arch52, Tag);
    #[archetype_id(180)]
    ecs_archetype!(Arch53, Tag);
    #[archetype_id(217)]
    ecs_archetype!(Arch54, Tag, X);
    #[archetype_id(254)]
    ecs_archetype!(Arch55, Tag);
    #[archetype_id(35)]
    ecs_archetype!(Arch56, Tag, Y);
    #[archetype_id(72)]
    ecs_archetype!(Arch57, Tag, X);
    #[archetype_id(109)]
    ecs_archetype!(Arch58, Tag);
    #[archetype_id(146)]
    ecs_archetype!(Arch59, Tag);
    #[archetype_id(183)]
    ecs_archetype!(Arch60, Tag, X);
    #[archetype_id(220)]
    ecs_archetype!(Arch61, Tag);
    #[archetype_id(1)]
    ecs_archetype!(Arch62, Tag);
    #[archetype_id(38)]
    ecs_archetype!(Arch63, Tag, X, Y);
    #[archetype_id(75)]
    ecs_archetype!(Arch64, Tag);
    #[archetype_id(112)]
    ecs_archetype!(Arch65, Tag);
    #[archetype_id(149)]
    ecs_archetype!(Arch66, Tag, X);
    #[archetype_id(186)]
    ecs_archetype!(Arch67, Tag);
    #[archetype_id(223)]
    ecs_archetype!(Arch68, Tag);
    #[archetype_id(4)]
    ecs_archetype!(Arch69, Tag, X);
    #[archetype_id(41)]
    ecs_archetype!(Arch70, Tag, Y);
    #[archetype_id(78)]
    ecs_archetype!(Arch71, Tag);
    #[archetype_id(115)]
    ecs_archetype!(Arch72, Tag, X);
    #[archetype_id(152)]
    ecs_archetype!(Arch73, Tag);
    #[archetype_id(189)]
    ecs_archetype!(Arch74, Tag);
    #[archetype_id(226)]
    ecs_archetype!(Arch75, Tag, X);
    #[archetype_id(7)]
    ecs_archetype!(Arch76, Tag);
    #[archetype_id(44)]
    ecs_archetype!(Arch77, Tag, Y);
    #[archetype_id(81)]
    ecs_archetype!(Arch78, Tag, X);
    #[archetype_id(118)]
    ecs_archetype!(Arch79, Tag);
    #[archetype_id(155)]
    ecs_archetype!(Arch80, Tag);
    #[archetype_id(192)]
    ecs_archetype!(Arch81, Tag, X);
    #[archetype_id(229)]
    ecs_archetype!(Arch82, Tag);
    #[archetype_id(10)]
    ecs_archetype!(Arch83, Tag);
    #[archetype_id(47)]
    ecs_archetype!(Arch84, Tag, X, Y);
    #[archetype_id(84)]
    ecs_archetype!(Arch85, Tag);
    #[archetype_id(121)]
    ecs_archetype!(Arch86, Tag);
    #[archetype_id(158)]
    ecs_archetype!(Arch87, Tag, X);
    #[archetype_id(195)]
    ecs_archetype!(Arch88, Tag);
    #[archetype_id(232)]
    ecs_archetype!(Arch89, Tag);
    #[archetype_id(13)]
    ecs_archetype!(Arch90, Tag, X);
    #[archetype_id(50)]
    ecs_archetype!(Arch91, Tag, Y);
    #[archetype_id(87)]
    ecs_archetype!(Arch92, Tag);
    #[archetype_id(124)]
    ecs_archetype!(Arch93, Tag, X);
    #[archetype_id(161)]
    ecs_archetype!(Arch94, Tag);
    #[archetype_id(198)]
    ecs_archetype!(Arch95, Tag);
    #[archetype_id(235)]
    ecs_archetype!(Arch96, Tag, X);
    #[archetype_id(16)]
    ecs_archetype!(Arch97, Tag);
    #[archetype_id(53)]
    ecs_archetype!(Arch98, Tag, Y);
    #[archetype_id(90)]
    ecs_archetype!(Arch99, Tag, X);
    #[archetype_id(127)]
    ecs_archetype!(Arch100, Tag);
    #[archetype_id(164)]
    ecs_archetype!(Arch101, Tag);
    #[archetype_id(201)]
    ecs_archetype!(Arch102, Tag, X);
    #[archetype_id(238)]
    ecs_archetype!(Arch103, Tag);
    #[archetype_id(19)]
    ecs_archetype!(Arch104, Tag);
    #[archetype_id(56)]
    ecs_archetype!(Arch105, Tag, X, Y);
    #[archetype_id(93)]
    ecs_archetype!(Arch106, Tag);
    #[archetype_id(130)]
    ecs_archetype!(Arch107, Tag);
    #[archetype_id(167)]
    ecs_archetype!(Arch108, Tag, X);
    #[archetype_id(204)]
    ecs_archetype!(Arch109, Tag);
    #[archetype_id(241)]
    ecs_archetype!(Arch110, Tag);
    #[archetype_id(22)]
    ecs_archetype!(Arch111, Tag, X);
    #[archetype_id(59)]
    ecs_archetype!(Arch112, Tag, Y);
    #[archetype_id(96)]
    ecs_archetype!(Arch113, Tag);
    #[archetype_id(133)]
    ecs_archetype!(Arch114, Tag, X);
    #[archetype_id(170)]
    ecs_archetype!(Arch115, Tag);
    #[archetype_id(207)]
    ecs_archetype!(Arch116, Tag);
    #[archetype_id(244)]
    ecs_archetype!(Arch117, Tag, X);
    #[archetype_id(25)]
    ecs_archetype!(Arch118, Tag);
    #[archetype_id(62)]
    ecs_archetype!(Arch119, Tag, Y);
    #[archetype_id(99)]
    ecs_archetype!(Arch120, Tag, X);
    #[archetype_id(136)]
    ecs_archetype!(Arch121, Tag);
    #[archetype_id(173)]
    ecs_archetype!(Arch122, Tag);
    #[archetype_id(210)]
    ecs_archetype!(Arch123, Tag, X);
    #[archetype_id(247)]
    ecs_archetype!(Arch124, Tag);
    #[archetype_id(28)]
    ecs_archetype!(Arch125, Tag);
    #[archetype_id(65)]
    ecs_archetype!(Arch126, Tag, X, Y);
    #[archetype_id(102)]
    ecs_archetype!(Arch127, Tag);
    #[archetype_id(139)]
    ecs_archetype!(Arch128, Tag);
    #[archetype_id(176)]
    ecs_archetype!(Arch129, Tag, X);
    #[archetype_id(213)]
    ecs_archetype!(Arch130, Tag);
    #[archetype_id(250)]
    ecs_archetype!(Arch131, Tag);
    #[archetype_id(31)]
    ecs_archetype!(Arch132, Tag, X);
    #[archetype_id(68)]
    ecs_archetype!(Arch133, Tag, Y);
    #[archetype_id(105)]
    ecs_archetype!(Arch134, Tag);
    #[archetype_id(142)]
    ecs_archetype!(Arch135, Tag, X);
    #[archetype_id(179)]
    ecs_archetype!(Arch136, Tag);
    #[archetype_id(216)]
    ecs_archetype!(Arch137, Tag);
    #[archetype_id(253)]
    ecs_archetype!(Arch138, Tag, X);
    #[archetype_id(34)]
    ecs_archetype!(Arch139, Tag);
    #[archetype_id(71)]
    ecs_archetype!(Arch140, Tag, Y);
    #[archetype_id(108)]
    ecs_archetype!(Arch141, Tag, X);
    #[archetype_id(145)]
    ecs_archetype!(Arch142, Tag);
    #[archetype_id(182)]
    ecs_archetype!(Arch143, Tag);
    #[archetype_id(219)]
    ecs_archetype!(Arch144, Tag, X);
    #[archetype_id(0)]
    ecs_archetype!(Arch145, Tag);
    #[archetype_id(37)]
    ecs_archetype!(Arch146, Tag);
    #[archetype_id(74)]
    ecs_archetype!(Arch147, Tag, X, Y);
    #[archetype_id(111)]
    ecs_archetype!(Arch148, Tag);
    #[archetype_id(148)]
    ecs_archetype!(Arch149, Tag);
    #[archetype_id(185)]
    ecs_archetype!(Arch150, Tag, X);
    #[archetype_id(222)]
    ecs_archetype!(Arch151, Tag);
    #[archetype_id(3)]
    ecs_archetype!(Arch152, Tag);
    #[archetype_id(40)]
    ecs_archetype!(Arch153, Tag, X);
    #[archetype_id(77)]
    ecs_archetype!(Arch154, Tag, Y);
    #[archetype_id(114)]
    ecs_archetype!(Arch155, Tag);
    #[archetype_id(151)]
    ecs_archetype!(Arch156, Tag, X);
    #[archetype_id(188)]
    ecs_archetype!(Arch157, Tag);
    #[archetype_id(225)]
    ecs_archetype!(Arch158, Tag);
    #[archetype_id(6)]
    ecs_archetype!(Arch159, Tag, X);
    #[archetype_id(43)]
    ecs_archetype!(Arch160, Tag);
    #[archetype_id(80)]
    ecs_archetype!(Arch161, Tag, Y);
    #[archetype_id(117)]
    ecs_archetype!(Arch162, Tag, X);
    #[archetype_id(154)]
    ecs_archetype!(Arch163, Tag);
    #[archetype_id(191)]
    ecs_archetype!(Arch164, Tag);
    #[archetype_id(228)]
    ecs_archetype!(Arch165, Tag, X);
    #[archetype_id(9)]
    ecs_archetype!(Arch166, Tag);
    #[archetype_id(46)]
    ecs_archetype!(Arch167, Tag);
    #[archetype_id(83)]
    ecs_archetype!(Arch168, Tag, X, Y);
    #[archetype_id(120)]
    ecs_archetype!(Arch169, Tag);
    #[archetype_id(157)]
    ecs_archetype!(Arch170, Tag);
    #[archetype_id(194)]
    ecs_archetype!(Arch171, Tag, X);
    #[archetype_id(231)]
    ecs_archetype!(Arch172, Tag);
    #[archetype_id(12)]
    ecs_archetype!(Arch173, Tag);
    #[archetype_id(49)]
    ecs_archetype!(Arch174, Tag, X);
    #[archetype_id(86)]
    ecs_archetype!(Arch175, Tag, Y);
    #[archetype_id(123)]
    ecs_archetype!(Arch176, Tag);
    #[archetype_id(160)]
    ecs_archetype!(Arch177, Tag, X);
    #[archetype_id(197)]
    ecs_archetype!(Arch178, Tag);
    #[archetype_id(234)]
    ecs_archetype!(Arch179, Tag);
    #[archetype_id(15)]
    ecs_archetype!(Arch180, Tag, X);
    #[archetype_id(52)]
    ecs_archetype!(Arch181, Tag);
    #[archetype_id(89)]
    ecs_archetype!(Arch182, Tag, Y);
    #[archetype_id(126)]
    ecs_archetype!(Arch183, Tag, X);
    #[archetype_id(163)]
    ecs_archetype!(Arch184, Tag);
    #[archetype_id(200)]
    ecs_archetype!(Arch185, Tag);
    #[archetype_id(237)]
    ecs_archetype!(Arch186, Tag, X);
    #[archetype_id(18)]
    ecs_archetype!(Arch187, Tag);
    #[archetype_id(55)]
    ecs_archetype!(Arch188, Tag);
    #[archetype_id(92)]
    ecs_archetype!(Arch189, Tag, X, Y);
    #[archetype_id(129)]
    ecs_archetype!(Arch190, Tag);
    #[archetype_id(166)]
    ecs_archetype!(Arch191, Tag);
    #[archetype_id(203)]
    ecs_archetype!(Arch192, Tag, X);
    #[archetype_id(240)]
    ecs_archetype!(Arch193, Tag);
    #[archetype_id(21)]
    ecs_archetype!(Arch194, Tag);
    #[archetype_id(58)]
    ecs_archetype!(Arch195, Tag, X);
    #[archetype_id(95)]
    ecs_archetype!(Arch196, Tag, Y);
    #[archetype_id(132)]
    ecs_archetype!(Arch197, Tag);
    #[archetype_id(169)]
    ecs_archetype!(Arch198, Tag, X);
    #[archetype_id(206)]
    ecs_archetype!(Arch199, Tag);
    #[archetype_id(243)]
    ecs_archetype!(Arch200, Tag);
    #[archetype_id(24)]
    ecs_archetype!(Arch201, Tag, X);
    #[archetype_id(61)]
    ecs_archetype!(Arch202, Tag);
    #[archetype_id(98)]
    ecs_archetype!(Arch203, Tag, Y);
    #[archetype_id(135)]
    ecs_archetype!(Arch204, Tag, X);
    #[archetype_id(172)]
    ecs_archetype!(Arch205, Tag);
    #[archetype_id(209)]
    ecs_archetype!(Arch206, Tag);
    #[archetype_id(246)]
    ecs_archetype!(Arch207, Tag, X);
    #[archetype_id(27)]
    ecs_archetype!(Arch208, Tag);
    #[archetype_id(64)]
    ecs_archetype!(Arch209, Tag);
    #[archetype_id(101)]
    ecs_archetype!(Arch210, Tag, X, Y);
    #[archetype_id(138)]
    ecs_archetype!(Arch211, Tag);
    #[archetype_id(175)]
    ecs_archetype!(Arch212, Tag);
    #[archetype_id(212)]
    ecs_archetype!(Arch213, Tag, X);
    #[archetype_id(249)]
    ecs_archetype!(Arch214, Tag);
    #[archetype_id(30)]
    ecs_archetype!(Arch215, Tag);
    #[archetype_id(67)]
    ecs_archetype!(Arch216, Tag, X);
    #[archetype_id(104)]
    ecs_archetype!(Arch217, Tag, Y);
    #[archetype_id(141)]
    ecs_archetype!(Arch218, Tag);
    #[archetype_id(178)]
    ecs_archetype!(Arch219, Tag, X);
    #[archetype_id(215)]
    ecs_archetype!(Arch220, Tag);
    #[archetype_id(252)]
    ecs_archetype!(Arch221, Tag);
    #[archetype_id(33)]
    ecs_archetype!(Arch222, Tag, X);
    #[archetype_id(70)]
    ecs_archetype!(Arch223, Tag);
    #[archetype_id(107)]
    ecs_archetype!(Arch224, Tag, Y);
    #[archetype_id(144)]
    ecs_archetype!(Arch225, Tag, X);
    #[archetype_id(181)]
    ecs_archetype!(Arch226, Tag);
    #[archetype_id(218)]
    ecs_archetype!(Arch227, Tag);
    #[archetype_id(255)]
    ecs_archetype!(Arch228, Tag, X);
    #[archetype_id(36)]
    ecs_archetype!(Arch229, Tag);
    #[archetype_id(73)]
    ecs_archetype!(Arch230, Tag);
    #[archetype_id(110)]
    ecs_archetype!(Arch231, Tag, X, Y);
    #[archetype_id(147)]
    ecs_archetype!(Arch232, Tag);
    #[archetype_id(184)]
    ecs_archetype!(Arch233, Tag);
    #[archetype_id(221)]
    ecs_archetype!(Arch234, Tag, X);
    #[archetype_id(2)]
    ecs_archetype!(Arch235, Tag);
    #[archetype_id(39)]
    ecs_archetype!(Arch236, Tag);
    #[archetype_id(76)]
    ecs_archetype!(Arch237, Tag, X);
    #[archetype_id(113)]
    ecs_archetype!(Arch238, Tag, Y);
    #[archetype_id(150)]
    ecs_archetype!(Arch239, Tag);
    #[archetype_id(187)]
    ecs_archetype!(Arch240, Tag, X);
    #[archetype_id(224)]
    ecs_archetype!(Arch241, Tag);
    #[archetype_id(5)]
    ecs_archetype!(Arch242, Tag);
    #[archetype_id(42)]
    ecs_archetype!(Arch243, Tag, X);
    #[archetype_id(79)]
    ecs_archetype!(Arch244, Tag);
    #[archetype_id(116)]
    ecs_archetype!(Arch245, Tag, Y);
    #[archetype_id(153)]
    ecs_archetype!(Arch246, Tag, X);
    #[archetype_id(190)]
    ecs_archetype!(Arch247, Tag);
    #[archetype_id(227)]
    ecs_archetype!(Arch248, Tag);
    #[archetype_id(8)]
    ecs_archetype!(Arch249, Tag, X);
    #[archetype_id(45)]
    ecs_archetype!(Arch250, Tag);
    #[archetype_id(82)]
    ecs_archetype!(Arch251, Tag);
    #[archetype_id(119)]
    ecs_archetype!(Arch252, Tag, X, Y);
    #[archetype_id(156)]
    ecs_archetype!(Arch253, Tag);
    #[archetype_id(193)]
    ecs_archetype!(Arch254, Tag);
    #[archetype_id(230)]
    ecs_archetype!(Arch255, Tag, X, Solo);
}

table! {
    0 11 Arch0 arch0 Arch0Components [Tag tag, X x, Y y]
    1 48 Arch1 arch1 Arch1Components [Tag tag]
    2 85 Arch2 arch2 Arch2Components [Tag tag]
    3 122 Arch3 arch3 Arch3Components [Tag tag, X x]
    4 159 Arch4 arch4 Arch4Components [Tag tag]
    5 196 Arch5 arch5 Arch5Components [Tag tag]
    6 233 Arch6 arch6 Arch6Components [Tag tag, X x]
    7 14 Arch7 arch7 Arch7Components [Tag tag, Y y]
    8 51 Arch8 arch8 Arch8Components [Tag tag]
    9 88 Arch9 arch9 Arch9Components [Tag tag, X x]
    10 125 Arch10 arch10 Arch10Components [Tag tag]
    11 162 Arch11 arch11 Arch11Components [Tag tag]
    12 199 Arch12 arch12 Arch12Components [Tag tag, X x]
    13 236 Arch13 arch13 Arch13Components [Tag tag]
    14 17 Arch14 arch14 Arch14Components [Tag tag, Y y]
    15 54 Arch15 arch15 Arch15Components [Tag tag, X x]
    16 91 Arch16 arch16 Arch16Components [Tag tag]
    17 128 Arch17 arch17 Arch17Components [Tag tag]
    18 165 Arch18 arch18 Arch18Components [Tag tag, X x]
    19 202 Arch19 arch19 Arch19Components [Tag tag]
    20 239 Arch20 arch20 Arch20Components [Tag tag]
    21 20 Arch21 arch21 Arch21Components [Tag tag, X x, Y y]
    22 57 Arch22 arch22 Arch22Components [Tag tag]
    23 94 Arch23 arch23 Arch23Components [Tag tag]
    24 131 Arch24 arch24 Arch24Components [Tag tag, X x]
    25 168 Arch25 arch25 Arch25Components [Tag tag]
    26 205 Arch26 arch26 Arch26Components [Tag tag]
    27 242 Arch27 arch27 Arch27Components [Tag tag, X x]
    28 23 Arch28 arch28 Arch28Components [Tag tag, Y y]
    29 60 Arch29 arch29 Arch29Components [Tag tag]
    30 97 Arch30 arch30 Arch30Components [Tag tag, X x]
    31 134 Arch31 arch31 Arch31Components [Tag tag]
    32 171 Arch32 arch32 Arch32Components [Tag tag]
    33 208 Arch33 arch33 Arch33Components [Tag tag, X x]
    34 245 Arch34 arch34 Arch34Components [Tag tag]
    35 26 Arch35 arch35 Arch35Components [Tag tag, Y y]
    36 63 Arch36 arch36 Arch36Components [Tag tag, X x]
    37 100 Arch37 arch37 Arch37Components [Tag tag]
    38 137 Arch38 arch38 Arch38Components [Tag tag]
    39 174 Arch39 arch39 Arch39Components [Tag tag, X x]
    40 211 Arch40 arch40 Arch40Components [Tag tag]
    41 248 Arch41 arch41 Arch41Components [Tag tag]
    42 29 Arch42 arch42 Arch42Components [Tag tag, X x, Y y]
    43 66 Arch43 arch43 Arch43Components [Tag tag]
    44 103 Arch44 arch44 Arch44Components [Tag tag]
    45 140 Arch45 arch45 Arch45Components [Tag tag, X x]
    46 177 Arch46 arch46 Arch46Components [Tag tag]
    47 214 Arch47 arch47 Arch47Components [Tag tag]
    48 251 Arch48 arch48 Arch48Components [Tag tag, X x]
    49 32 Arch49 arch49 Arch49Components [Tag tag, Y y]
    50 69 Arch50 arch50 Arch50Components [Tag tag]
    51 106 Arch51 arch51 Arch51Components [Tag tag, X x]
    52 143 Arch52 arch52 Arch52Components [Tag tag]
    53 180 Arch53 arch53 Arch53Components [Tag tag]
    54 217 Arch54 arch54 Arch54Components [Tag tag, X x]
    55 254 Arch55 arch55 Arch55Components [Tag tag]
    56 35 Arch56 arch56 Arch56Components [Tag tag, Y y]
    57 72 Arch57 arch57 Arch57Components [Tag tag, X x]
    58 109 Arch58 arch58 Arch58Components [Tag tag]
    59 146 Arch59 arch59 Arch59Components [Tag tag]
    60 183 Arch60 arch60 Arch60Components [Tag tag, X x]
    61 220 Arch61 arch61 Arch61Components [Tag tag]
    62 1 Arch62 arch62 Arch62Components [Tag tag]
    63 38 Arch63 arch63 Arch63Components [Tag tag, X x, Y y]
    64 75 Arch64 arch64 Arch64Components [Tag tag]
    65 112 Arch65 arch65 Arch65Components [Tag tag]
    66 149 Arch66 arch66 Arch66Components [Tag tag, X x]
    67 186 Arch67 arch67 Arch67Components [Tag tag]
    68 223 Arch68 arch68 Arch68Components [Tag tag]
    69 4 Arch69 arch69 Arch69Components [Tag tag, X x]
    70 41 Arch70 arch70 Arch70Components [Tag tag, Y y]
    71 78 Arch71 arch71 Arch71Components [Tag tag]
    72 115 Arch72 arch72 Arch72Components [Tag tag, X x]
    73 152 Arch73 arch73 Arch73Components [Tag tag]
    74 189 Arch74 arch74 Arch74Components [Tag tag]
    75 226 Arch75 arch75 Arch75Components [Tag tag, X x]
    76 7 Arch76 arch76 Arch76Components [Tag tag]
    77 44 Arch77 arch77 Arch77Components [Tag tag, Y y]
    78 81 Arch78 arch78 Arch78Components [Tag tag, X x]
    79 118 Arch79 arch79 Arch79Components [Tag tag]
    80 155 Arch80 arch80 Arch80Components [Tag tag]
    81 192 Arch81 arch81 Arch81Components [Tag tag, X x]
    82 229 Arch82 arch82 Arch82Components [Tag tag]
    83 10 Arch83 arch83 Arch83Components [Tag tag]
    84 47 Arch84 arch84 Arch84Components [Tag tag, X x, Y y]
    85 84 Arch85 arch85 Arch85Components [Tag tag]
    86 121 Arch86 arch86 Arch86Components [Tag tag]
    87 158 Arch87 arch87 Arch87Components [Tag tag, X x]
    88 195 Arch88 arch88 Arch88Components [Tag tag]
    89 232 Arch89 arch89 Arch89Components [Tag tag]
    90 13 Arch90 arch90 Arch90Components [Tag tag, X x]
    91 50 Arch91 arch91 Arch91Components [Tag tag, Y y]
    92 87 Arch92 arch92 Arch92Components [Tag tag]
    93 124 Arch93 arch93 Arch93Components [Tag tag, X x]
    94 161 Arch94 arch94 Arch94Components [Tag tag]
    95 198 Arch95 arch95 Arch95Components [Tag tag]
    96 235 Arch96 arch96 Arch96Components [Tag tag, X x]
    97 16 Arch97 arch97 Arch97Components [Tag tag]
    98 53 Arch98 arch98 Arch98Components [Tag tag, Y y]
    99 90 Arch99 arch99 Arch99Components [Tag tag, X x]
    100 127 Arch100 arch100 Arch100Components [Tag tag]
    101 164 Arch101 arch101 Arch101Components [Tag tag]
    102 201 Arch102 arch102 Arch102Components [Tag tag, X x]
    103 238 Arch103 arch103 Arch103Components [Tag tag]
    104 19 Arch104 arch104 Arch104Components [Tag tag]
    105 56 Arch105 arch105 Arch105Components [Tag tag, X x, Y y]
    106 93 Arch106 arch106 Arch106Components [Tag tag]
    107 130 Arch107 arch107 Arch107Components [Tag tag]
    108 167 Arch108 arch108 Arch108Components [Tag tag, X x]
    109 204 Arch109 arch109 Arch109Components [Tag tag]
    110 241 Arch110 arch110 Arch110Components [Tag tag]
    111 22 Arch111 arch111 Arch111Components [Tag tag, X x]
    112 59 Arch112 arch112 Arch112Components [Tag tag, Y y]
    113 96 Arch113 arch113 Arch113Components [Tag tag]
    114 133 Arch114 arch114 Arch114Components [Tag tag, X x]
    115 170 Arch115 arch115 Arch115Components [Tag tag]
    116 207 Arch116 arch116 Arch116Components [Tag tag]
    117 244 Arch117 arch117 Arch117Components [Tag tag, X x]
    118 25 Arch118 arch118 Arch118Components [Tag tag]
    119 62 Arch119 arch119 Arch119Components [Tag tag, Y y]
    120 99 Arch120 arch120 Arch120Components [Tag tag, X x]
    121 136 Arch121 arch121 Arch121Components [Tag tag]
    122 173 Arch122 arch122 Arch122Components [Tag tag]
    123 210 Arch123 arch123 Arch123Components [Tag tag, X x]
    124 247 Arch124 arch124 Arch124Components [Tag tag]
    125 28 Arch125 arch125 Arch125Components [Tag tag]
    126 65 Arch126 arch126 Arch126Components [Tag tag, X x, Y y]
    127 102 Arch127 arch127 Arch127Components [Tag tag]
    128 139 Arch128 arch128 Arch128Components [Tag tag]
    129 176 Arch129 arch129 Arch129Components [Tag tag, X x]
    130 213 Arch130 arch130 Arch130Components [Tag tag]
    131 250 Arch131 arch131 Arch131Components [Tag tag]
    132 31 Arch132 arch132 Arch132Components [Tag tag, X x]
    133 68 Arch133 arch133 Arch133Components [Tag tag, Y y]
    134 105 Arch134 arch134 Arch134Components [Tag tag]
    135 142 Arch135 arch135 Arch135Components [Tag tag, X x]
    136 179 Arch136 arch136 Arch136Components [Tag tag]
    137 216 Arch137 arch137 Arch137Components [Tag tag]
    138 253 Arch138 arch138 Arch138Components [Tag tag, X x]
    139 34 Arch139 arch139 Arch139Components [Tag tag]
    140 71 Arch140 arch140 Arch140Components [Tag tag, Y y]
    141 108 Arch141 arch141 Arch141Components [Tag tag, X x]
    142 145 Arch142 arch142 Arch142Components [Tag tag]
    143 182 Arch143 arch143 Arch143Components [Tag tag]
    144 219 Arch144 arch144 Arch144Components [Tag tag, X x]
    145 0 Arch145 arch145 Arch145Components [Tag tag]
    146 37 Arch146 arch146 Arch146Components [Tag tag]
    147 74 Arch147 arch147 Arch147Components [Tag tag, X x, Y y]
    148 111 Arch148 arch148 Arch148Components [Tag tag]
    149 148 Arch149 arch149 Arch149Components [Tag tag]
    150 185 Arch150 arch150 Arch150Components [Tag tag, X x]
    151 222 Arch151 arch151 Arch151Components [Tag tag]
    152 3 Arch152 arch152 Arch152Components [Tag tag]
    153 40 Arch153 arch153 Arch153Components [Tag tag, X x]
    154 77 Arch154 arch154 Arch154Components [Tag tag, Y y]
    155 114 Arch155 arch155 Arch155Components [Tag tag]
    156 151 Arch156 arch156 Arch156Components [Tag tag, X x]
    157 188 Arch157 arch157 Arch157Components [Tag tag]
    158 225 Arch158 arch158 Arch158Components [Tag tag]
    159 6 Arch159 arch159 Arch159Components [Tag tag, X x]
    160 43 Arch160 arch160 Arch160Components [Tag tag]
    161 80 Arch161 arch161 Arch161Components [Tag tag, Y y]
    162 117 Arch162 arch162 Arch162Components [Tag tag, X x]
    163 154 Arch163 arch163 Arch163Components [Tag tag]
    164 191 Arch164 arch164 Arch164Components [Tag tag]
    165 228 Arch165 arch165 Arch165Components [Tag tag, X x]
    166 9 Arch166 arch166 Arch166Components [Tag tag]
    167 46 Arch167 arch167 Arch167Components [Tag tag]
    168 83 Arch168 arch168 Arch168Components [Tag tag, X x, Y y]
    169 120 Arch169 arch169 Arch169Components [Tag tag]
    170 157 Arch170 arch170 Arch170Components [Tag tag]
    171 194 Arch171 arch171 Arch171Components [Tag tag, X x]
    172 231 Arch172 arch172 Arch172Components [Tag tag]
    173 12 Arch173 arch173 Arch173Components [Tag tag]
    174 49 Arch174 arch174 Arch174Components [Tag tag, X x]
    175 86 Arch175 arch175 Arch175Components [Tag tag, Y y]
    176 123 Arch176 arch176 Arch176Components [Tag tag]
    177 160 Arch177 arch177 Arch177Components [Tag tag, X x]
    178 197 Arch178 arch178 Arch178Components [Tag tag]
    179 234 Arch179 arch179 Arch179Components [Tag tag]
    180 15 Arch180 arch180 Arch180Components [Tag tag, X x]
    181 52 Arch181 arch181 Arch181Components [Tag tag]
    182 89 Arch182 arch182 Arch182Components [Tag tag, Y y]
    183 126 Arch183 arch183 Arch183Components [Tag tag, X x]
    184 163 Arch184 arch184 Arch184Components [Tag tag]
    185 200 Arch185 arch185 Arch185Components [Tag tag]
    186 237 Arch186 arch186 Arch186Components [Tag tag, X x]
    187 18 Arch187 arch187 Arch187Components [Tag tag]
    188 55 Arch188 arch188 Arch188Components [Tag tag]
    189 92 Arch189 arch189 Arch189Components [Tag tag, X x, Y y]
    190 129 Arch190 arch190 Arch190Components [Tag tag]
    191 166 Arch191 arch191 Arch191Components [Tag tag]
    192 203 Arch192 arch192 Arch192Components [Tag tag, X x]
    193 240 Arch193 arch193 Arch193Components [Tag tag]
    194 21 Arch194 arch194 Arch194Components [Tag tag]
    195 58 Arch195 arch195 Arch195Components [Tag tag, X x]
    196 95 Arch196 arch196 Arch196Components [Tag tag, Y y]
    197 132 Arch197 arch197 Arch197Components [Tag tag]
    198 169 Arch198 arch198 Arch198Components [Tag tag, X x]
    199 206 Arch199 arch199 Arch199Components [Tag tag]
    200 243 Arch200 arch200 Arch200Components [Tag tag]
    201 24 Arch201 arch201 Arch201Components [Tag tag, X x]
    202 61 Arch202 arch202 Arch202Components [Tag tag]
    203 98 Arch203 arch203 Arch203Components [Tag tag, Y y]
    204 135 Arch204 arch204 Arch204Components [Tag tag, X x]
    205 172 Arch205 arch205 Arch205Components [Tag tag]
    206 209 Arch206 arch206 Arch206Components [Tag tag]
    207 246 Arch207 arch207 Arch207Components [Tag tag, X x]
    208 27 Arch208 arch208 Arch208Components [Tag tag]
    209 64 Arch209 arch209 Arch209Components [Tag tag]
    210 101 Arch210 arch210 Arch210Components [Tag tag, X x, Y y]
    211 138 Arch211 arch211 Arch211Components [Tag tag]
    212 175 Arch212 arch212 Arch212Components [Tag tag]
    213 212 Arch213 arch213 Arch213Components [Tag tag, X x]
    214 249 Arch214 arch214 Arch214Components [Tag tag]
    215 30 Arch215 arch215 Arch215Components [Tag tag]
    216 67 Arch216 arch216 Arch216Components [Tag tag, X x]
    217 104 Arch217 arch217 Arch217Components [Tag tag, Y y]
    218 141 Arch218 arch218 Arch218Components [Tag tag]
    219 178 Arch219 arch219 Arch219Components [Tag tag, X x]
    220 215 Arch220 arch220 Arch220Components [Tag tag]
    221 252 Arch221 arch221 Arch221Components [Tag tag]
    222 33 Arch222 arch222 Arch222Components [Tag tag, X x]
    223 70 Arch223 arch223 Arch223Components [Tag tag]
    224 107 Arch224 arch224 Arch224Components [Tag tag, Y y]
    225 144 Arch225 arch225 Arch225Components [Tag tag, X x]
    226 181 Arch226 arch226 Arch226Components [Tag tag]
    227 218 Arch227 arch227 Arch227Components [Tag tag]
    228 255 Arch228 arch228 Arch228Components [Tag tag, X x]
    229 36 Arch229 arch229 Arch229Components [Tag tag]
    230 73 Arch230 arch230 Arch230Components [Tag tag]
    231 110 Arch231 arch231 Arch231Components [Tag tag, X x, Y y]
    232 147 Arch232 arch232 Arch232Components [Tag tag]
    233 184 Arch233 arch233 Arch233Components [Tag tag]
    234 221 Arch234 arch234 Arch234Components [Tag tag, X x]
    235 2 Arch235 arch235 Arch235Components [Tag tag]
    236 39 Arch236 arch236 Arch236Components [Tag tag]
    237 76 Arch237 arch237 Arch237Components [Tag tag, X x]
    238 113 Arch238 arch238 Arch238Components [Tag tag, Y y]
    239 150 Arch239 arch239 Arch239Components [Tag tag]
    240 187 Arch240 arch240 Arch240Components [Tag tag, X x]
    241 224 Arch241 arch241 Arch241Components [Tag tag]
    242 5 Arch242 arch242 Arch242Components [Tag tag]
    243 42 Arch243 arch243 Arch243Components [Tag tag, X x]
    244 79 Arch244 arch244 Arch244Components [Tag tag]
    245 116 Arch245 arch245 Arch245Components [Tag tag, Y y]
    246 153 Arch246 arch246 Arch246Components [Tag tag, X x]
    247 190 Arch247 arch247 Arch247Components [Tag tag]
    248 227 Arch248 arch248 Arch248Components [Tag tag]
    249 8 Arch249 arch249 Arch249Components [Tag tag, X x]
    250 45 Arch250 arch250 Arch250Components [Tag tag]
    251 82 Arch251 arch251 Arch251Components [Tag tag]
    252 119 Arch252 arch252 Arch252Components [Tag tag, X x, Y y]
    253 156 Arch253 arch253 Arch253Components [Tag tag]
    254 193 Arch254 arch254 Arch254Components [Tag tag]
    255 230 Arch255 arch255 Arch255Components [Tag tag, X x, Solo solo]
}
