VERIF_LIT(1)
VERIF_LIT(2)
VERIF_LIT(3)
VERIF_LIT(4)
VERIF_LIT(5)
VERIF_LIT(6)
VERIF_LIT(7)
VERIF_LIT(8)
VERIF_LIT(9)
VERIF_LIT(10)
VERIF_LIT(11)
VERIF_LIT(12)
VERIF_LIT(13)
VERIF_LIT(14)
VERIF_LIT(15)
VERIF_LIT(16)
VERIF_LIT(17)
VERIF_LIT(18)
VERIF_LIT(19)
VERIF_LIT(20)
VERIF_LIT(21)
VERIF_LIT(22)
VERIF_LIT(23)
VERIF_LIT(24)
VERIF_LIT(25)
VERIF_LIT(26)
VERIF_LIT(27)
VERIF_LIT(28)
VERIF_LIT(29)
VERIF_LIT(30)
VERIF_LIT(31)
VERIF_LIT(32)
VERIF_LIT(33)
VERIF_LIT(34)
VERIF_LIT(35)
VERIF_LIT(36)
VERIF_LIT(37)
VERIF_LIT(38)
VERIF_LIT(39)
VERIF_LIT(40)
VERIF_LIT(41)
VERIF_LIT(42)
VERIF_LIT(43)
VERIF_LIT(44)
VERIF_LIT(45)
VERIF_LIT(46)
VERIF_LIT(47)
VERIF_LIT(48)
VERIF_LIT(49)
VERIF_LIT(50)
VERIF_LIT(51)
VERIF_LIT(52)
VERIF_LIT(53)
VERIF_LIT(54)
VERIF_LIT(55)
VERIF_LIT(56)
VERIF_LIT(57)
VERIF_LIT(58)
VERIF_LIT(59)
VERIF_LIT(60)
VERIF_LIT(61)
VERIF_LIT(62)
VERIF_LIT(63)
VERIF_LIT(64)
VERIF_LIT(65)
VERIF_LIT(66)
VERIF_LIT(67)
VERIF_LIT(68)
VERIF_LIT(69)
VERIF_LIT(70)
VERIF_LIT(71)
VERIF_LIT(72)
VERIF_LIT(73)
VERIF_LIT(74)
VERIF_LIT(75)
VERIF_LIT(76)
VERIF_LIT(77)
VERIF_LIT(78)
VERIF_LIT(79)
VERIF_LIT(80)
VERIF_LIT(81)
VERIF_LIT(82)
VERIF_LIT(83)
VERIF_LIT(84)
VERIF_LIT(85)
VERIF_LIT(86)
VERIF_LIT(87)
VERIF_LIT(88)
VERIF_LIT(89)
VERIF_LIT(90)
VERIF_LIT(91)
VERIF_LIT(92)
VERIF_LIT(93)
VERIF_LIT(94)
VERIF_LIT(95)
VERIF_LIT(96)
VERIF_LIT(97)
VERIF_LIT(98)
VERIF_LIT(99)
VERIF_LIT(100)
VERIF_LIT(101)
VERIF_LIT(102)
VERIF_LIT(103)
VERIF_LIT(104)
VERIF_LIT(105)
VERIF_LIT(106)
VERIF_LIT(107)
VERIF_LIT(108)
VERIF_LIT(109)
VERIF_LIT(110)
VERIF_LIT(111)
VERIF_LIT(112)
VERIF_LIT(113)
VERIF_LIT(114)
VERIF_LIT(115)
VERIF_LIT(116)
VERIF_LIT(117)
VERIF_LIT(118)
VERIF_LIT(119)
VERIF_LIT(120)
VERIF_LIT(121)
VERIF_LIT(122)
VERIF_LIT(123)
VERIF_LIT(124)
VERIF_LIT(125)
VERIF_LIT(126)
VERIF_LIT(127)
VERIF_LIT(128)
VERIF_LIT(129)
VERIF_LIT(130)
VERIF_LIT(131)
VERIF_LIT(132)
VERIF_LIT(133)
VERIF_LIT(134)
VERIF_LIT(135)
VERIF_LIT(136)
VERIF_LIT(137)
VERIF_LIT(138)
VERIF_LIT(139)
VERIF_LIT(140)
VERIF_LIT(141)
VERIF_LIT(142)
VERIF_LIT(143)
VERIF_LIT(144)
VERIF_LIT(145)
VERIF_LIT(146)
VERIF_LIT(147)
VERIF_LIT(148)
VERIF_LIT(149)
VERIF_LIT(150)
VERIF_LIT(151)
VERIF_LIT(152)
VERIF_LIT(153)
VERIF_LIT(154)
VERIF_LIT(155)
VERIF_LIT(156)
VERIF_LIT(157)
VERIF_LIT(158)
VERIF_LIT(159)
VERIF_LIT(160)
VERIF_LIT(161)
VERIF_LIT(162)
VERIF_LIT(163)
VERIF_LIT(164)
VERIF_LIT(165)
VERIF_LIT(166)
VERIF_LIT(167)
VERIF_LIT(168)
VERIF_LIT(169)
VERIF_LIT(170)
VERIF_LIT(171)
VERIF_LIT(172)
VERIF_LIT(173)
VERIF_LIT(174)
VERIF_LIT(175)
VERIF_LIT(176)
VERIF_LIT(177)
VERIF_LIT(178)
VERIF_LIT(179)
VERIF_LIT(180)
VERIF_LIT(181)
VERIF_LIT(182)
VERIF_LIT(183)
VERIF_LIT(184)
VERIF_LIT(185)
VERIF_LIT(186)
VERIF_LIT(187)
VERIF_LIT(188)
VERIF_LIT(189)
VERIF_LIT(190)
VERIF_LIT(191)
VERIF_LIT(192)
VERIF_LIT(193)
VERIF_LIT(194)
VERIF_LIT(195)
VERIF_LIT(196)
VERIF_LIT(197)
VERIF_LIT(198)
VERIF_LIT(199)
VERIF_LIT(200)
VERIF_LIT(201)
VERIF_LIT(202)
VERIF_LIT(203)
VERIF_LIT(204)
VERIF_LIT(205)
VERIF_LIT(206)
VERIF_LIT(207)
VERIF_LIT(208)
VERIF_LIT(209)
VERIF_LIT(210)
VERIF_LIT(211)
VERIF_LIT(212)
VERIF_LIT(213)
VERIF_LIT(214)
VERIF_LIT(215)
VERIF_LIT(216)
VERIF_LIT(217)
VERIF_LIT(218)
VERIF_LIT(219)
VERIF_LIT(220)
VERIF_LIT(221)
VERIF_LIT(222)
VERIF_LIT(223)
VERIF_LIT(224)
VERIF_LIT(225)
VERIF_LIT(226)
VERIF_LIT(227)
VERIF_LIT(228)
VERIF_LIT(229)
VERIF_LIT(230)
VERIF_LIT(231)
VERIF_LIT(232)
VERIF_LIT(233)
VERIF_LIT(234)
VERIF_LIT(235)
VERIF_LIT(236)
VERIF_LIT(237)
VERIF_LIT(238)
VERIF_LIT(239)
VERIF_LIT(240)
VERIF_LIT(241)
VERIF_LIT(242)
VERIF_LIT(243)
VERIF_LIT(244)
VERIF_LIT(245)
VERIF_LIT(246)
VERIF_LIT(247)
VERIF_LIT(248)
VERIF_LIT(249)
VERIF_LIT(250)
VERIF_LIT(251)
VERIF_LIT(252)
VERIF_LIT(253)
VERIF_LIT(254)
VERIF_LIT(255)
VERIF_LIT(256)
VERIF_LIT(257)
VERIF_LIT(258)
VERIF_LIT(259)
VERIF_LIT(260)
VERIF_LIT(261)
VERIF_LIT(262)
VERIF_LIT(263)
VERIF_LIT(264)
VERIF_LIT(265)
VERIF_LIT(266)
VERIF_LIT(267)
VERIF_LIT(268)
VERIF_LIT(269)
VERIF_LIT(270)
VERIF_LIT(271)
VERIF_LIT(272)
VERIF_LIT(273)
VERIF_LIT(274)
VERIF_LIT(275)
VERIF_LIT(276)
VERIF_LIT(277)
VERIF_LIT(278)
VERIF_LIT(279)
VERIF_LIT(280)
VERIF_LIT(281)
VERIF_LIT(282)
VERIF_LIT(283)
VERIF_LIT(284)
VERIF_LIT(285)
VERIF_LIT(286)
VERIF_LIT(287)
VERIF_LIT(288)
VERIF_LIT(289)
VERIF_LIT(290)
VERIF_LIT(291)
VERIF_LIT(292)
VERIF_LIT(293)
VERIF_LIT(294)
VERIF_LIT(295)
VERIF_LIT(296)
VERIF_LIT(297)
VERIF_LIT(298)
VERIF_LIT(299)
VERIF_LIT(300)
VERIF_LIT(301)
VERIF_LIT(302)
VERIF_LIT(303)
VERIF_LIT(304)
VERIF_LIT(305)
VERIF_LIT(306)
VERIF_LIT(307)
VERIF_LIT(308)
VERIF_LIT(309)
VERIF_LIT(310)
VERIF_LIT(311)
VERIF_LIT(312)
VERIF_LIT(313)
VERIF_LIT(314)
VERIF_LIT(315)
VERIF_LIT(316)
VERIF_LIT(317)
VERIF_LIT(318)
VERIF_LIT(319)
VERIF_LIT(320)
VERIF_LIT(321)
VERIF_LIT(322)
VERIF_LIT(323)
VERIF_LIT(324)
VERIF_LIT(325)
VERIF_LIT(326)
VERIF_LIT(327)
VERIF_LIT(328)
VERIF_LIT(329)
VERIF_LIT(330)
VERIF_LIT(331)
VERIF_LIT(332)
VERIF_LIT(333)
VERIF_LIT(334)
VERIF_LIT(335)
VERIF_LIT(336)
VERIF_LIT(337)
VERIF_LIT(338)
VERIF_LIT(339)
VERIF_LIT(340)
VERIF_LIT(341)
VERIF_LIT(342)
VERIF_LIT(343)
VERIF_LIT(344)
VERIF_LIT(345)
VERIF_LIT(346)
VERIF_LIT(347)
VERIF_LIT(348)
VERIF_LIT(349)
VERIF_LIT(350)
VERIF_LIT(351)
VERIF_LIT(352)
VERIF_LIT(353)
VERIF_LIT(354)
VERIF_LIT(355)
VERIF_LIT(356)
VERIF_LIT(357)
VERIF_LIT(358)
VERIF_LIT(359)
VERIF_LIT(360)
VERIF_LIT(361)
VERIF_LIT(362)
VERIF_LIT(363)
VERIF_LIT(364)
VERIF_LIT(365)
VERIF_LIT(366)
VERIF_LIT(367)
VERIF_LIT(368)
VERIF_LIT(369)
VERIF_LIT(370)
VERIF_LIT(371)
VERIF_LIT(372)
VERIF_LIT(373)
VERIF_LIT(374)
VERIF_LIT(375)
VERIF_LIT(376)
VERIF_LIT(377)
VERIF_LIT(378)
VERIF_LIT(379)
VERIF_LIT(380)
VERIF_LIT(381)
VERIF_LIT(382)
VERIF_LIT(383)
VERIF_LIT(384)
VERIF_LIT(385)
VERIF_LIT(386)
VERIF_LIT(387)
VERIF_LIT(388)
VERIF_LIT(389)
VERIF_LIT(390)
VERIF_LIT(391)
VERIF_LIT(392)
VERIF_LIT(393)
VERIF_LIT(394)
VERIF_LIT(395)
VERIF_LIT(396)
VERIF_LIT(397)
VERIF_LIT(398)
VERIF_LIT(399)
VERIF_LIT(400)
VERIF_LIT(401)
VERIF_LIT(402)
VERIF_LIT(403)
VERIF_LIT(404)
VERIF_LIT(405)
VERIF_LIT(406)
VERIF_LIT(407)
VERIF_LIT(408)
VERIF_LIT(409)
VERIF_LIT(410)
VERIF_LIT(411)
VERIF_LIT(412)
VERIF_LIT(413)
VERIF_LIT(414)
VERIF_LIT(415)
VERIF_LIT(416)
VERIF_LIT(417)
VERIF_LIT(418)
VERIF_LIT(419)
VERIF_LIT(420)
VERIF_LIT(421)
VERIF_LIT(422)
VERIF_LIT(423)
VERIF_LIT(424)
VERIF_LIT(425)
VERIF_LIT(426)
VERIF_LIT(427)
VERIF_LIT(428)
VERIF_LIT(429)
VERIF_LIT(430)
VERIF_LIT(431)
VERIF_LIT(432)
VERIF_LIT(433)
VERIF_LIT(434)
VERIF_LIT(435)
VERIF_LIT(436)
VERIF_LIT(437)
VERIF_LIT(438)
VERIF_LIT(439)
VERIF_LIT(440)
VERIF_LIT(441)
VERIF_LIT(442)
VERIF_LIT(443)
VERIF_LIT(444)
VERIF_LIT(445)
VERIF_LIT(446)
VERIF_LIT(447)
VERIF_LIT(448)
VERIF_LIT(449)
VERIF_LIT(450)
VERIF_LIT(451)
VERIF_LIT(452)
VERIF_LIT(453)
VERIF_LIT(454)
VERIF_LIT(455)
VERIF_LIT(456)
VERIF_LIT(457)
VERIF_LIT(458)
VERIF_LIT(459)
VERIF_LIT(460)
VERIF_LIT(461)
VERIF_LIT(462)
VERIF_LIT(463)
VERIF_LIT(464)
VERIF_LIT(465)
VERIF_LIT(466)
VERIF_LIT(467)
VERIF_LIT(468)
VERIF_LIT(469)
VERIF_LIT(470)
VERIF_LIT(471)
VERIF_LIT(472)
VERIF_LIT(473)
VERIF_LIT(474)
VERIF_LIT(475)
VERIF_LIT(476)
VERIF_LIT(477)
VERIF_LIT(478)
VERIF_LIT(479)
VERIF_LIT(480)
VERIF_LIT(481)
VERIF_LIT(482)
VERIF_LIT(483)
VERIF_LIT(484)
VERIF_LIT(485)
VERIF_LIT(486)
VERIF_LIT(487)
VERIF_LIT(488)
VERIF_LIT(489)
VERIF_LIT(490)
VERIF_LIT(491)
VERIF_LIT(492)
VERIF_LIT(493)
VERIF_LIT(494)
VERIF_LIT(495)
VERIF_LIT(496)
VERIF_LIT(497)
VERIF_LIT(498)
VERIF_LIT(499)
VERIF_LIT(500)
VERIF_LIT(501)
VERIF_LIT(502)
VERIF_LIT(503)
VERIF_LIT(504)
VERIF_LIT(505)
VERIF_LIT(506)
VERIF_LIT(507)
VERIF_LIT(508)
VERIF_LIT(509)
VERIF_LIT(510)
VERIF_LIT(511)
VERIF_LIT(512)
VERIF_LIT(513)
VERIF_LIT(514)
VERIF_LIT(515)
VERIF_LIT(516)
VERIF_LIT(517)
VERIF_LIT(518)
VERIF_LIT(519)
VERIF_LIT(520)
VERIF_LIT(521)
VERIF_LIT(522)
VERIF_LIT(523)
VERIF_LIT(524)
VERIF_LIT(525)
VERIF_LIT(526)
VERIF_LIT(527)
VERIF_LIT(528)
VERIF_LIT(529)
VERIF_LIT(530)
VERIF_LIT(531)
VERIF_LIT(532)
VERIF_LIT(533)
VERIF_LIT(534)
VERIF_LIT(535)
VERIF_LIT(536)
VERIF_LIT(537)
VERIF_LIT(538)
VERIF_LIT(539)
VERIF_LIT(540)
VERIF_LIT(541)
VERIF_LIT(542)
VERIF_LIT(543)
VERIF_LIT(544)
VERIF_LIT(545)
VERIF_LIT(546)
VERIF_LIT(547)
VERIF_LIT(548)
VERIF_LIT(549)
VERIF_LIT(550)
VERIF_LIT(551)
VERIF_LIT(552)
VERIF_LIT(553)
VERIF_LIT(554)
VERIF_LIT(555)
VERIF_LIT(556)
VERIF_LIT(557)
VERIF_LIT(558)
VERIF_LIT(559)
VERIF_LIT(560)
VERIF_LIT(561)
VERIF_LIT(562)
VERIF_LIT(563)
VERIF_LIT(564)
VERIF_LIT(565)
VERIF_LIT(566)
VERIF_LIT(567)
VERIF_LIT(568)
VERIF_LIT(569)
VERIF_LIT(570)
VERIF_LIT(571)
VERIF_LIT(572)
VERIF_LIT(573)
VERIF_LIT(574)
VERIF_LIT(575)
VERIF_LIT(576)
VERIF_LIT(577)
VERIF_LIT(578)
VERIF_LIT(579)
VERIF_LIT(580)
VERIF_LIT(581)
VERIF_LIT(582)
VERIF_LIT(583)
VERIF_LIT(584)
VERIF_LIT(585)
VERIF_LIT(586)
VERIF_LIT(587)
VERIF_LIT(588)
VERIF_LIT(589)
VERIF_LIT(590)
VERIF_LIT(591)
VERIF_LIT(592)
VERIF_LIT(593)
VERIF_LIT(594)
VERIF_LIT(595)
VERIF_LIT(596)
VERIF_LIT(597)
VERIF_LIT(598)
VERIF_LIT(599)
VERIF_LIT(600)
VERIF_LIT(601)
VERIF_LIT(602)
VERIF_LIT(603)
VERIF_LIT(604)
VERIF_LIT(605)
VERIF_LIT(606)
VERIF_LIT(607)
VERIF_LIT(608)
VERIF_LIT(609)
VERIF_LIT(610)
VERIF_LIT(611)
VERIF_LIT(612)
VERIF_LIT(613)
VERIF_LIT(614)
VERIF_LIT(615)
VERIF_LIT(616)
VERIF_LIT(617)
VERIF_LIT(618)
VERIF_LIT(619)
VERIF_LIT(620)
VERIF_LIT(621)
VERIF_LIT(622)
VERIF_LIT(623)
VERIF_LIT(624)
VERIF_LIT(625)
VERIF_LIT(626)
VERIF_LIT(627)
VERIF_LIT(628)
VERIF_LIT(629)
VERIF_LIT(630)
VERIF_LIT(631)
VERIF_LIT(632)
VERIF_LIT(633)
VERIF_LIT(634)
VERIF_LIT(635)
VERIF_LIT(636)
VERIF_LIT(637)
VERIF_LIT(638)
VERIF_LIT(639)
VERIF_LIT(640)
VERIF_LIT(641)
VERIF_LIT(642)
VERIF_LIT(643)
VERIF_LIT(644)
VERIF_LIT(645)
VERIF_LIT(646)
VERIF_LIT(647)
VERIF_LIT(648)
VERIF_LIT(649)
VERIF_LIT(650)
VERIF_LIT(651)
VERIF_LIT(652)
VERIF_LIT(653)
VERIF_LIT(654)
VERIF_LIT(655)
VERIF_LIT(656)
VERIF_LIT(657)
VERIF_LIT(658)
VERIF_LIT(659)
VERIF_LIT(660)
VERIF_LIT(661)
VERIF_LIT(662)
VERIF_LIT(663)
VERIF_LIT(664)
VERIF_LIT(665)
VERIF_LIT(666)
VERIF_LIT(667)
VERIF_LIT(668)
VERIF_LIT(669)
VERIF_LIT(670)
VERIF_LIT(671)
VERIF_LIT(672)
VERIF_LIT(673)
VERIF_LIT(674)
VERIF_LIT(675)
VERIF_LIT(676)
VERIF_LIT(677)
VERIF_LIT(678)
VERIF_LIT(679)
VERIF_LIT(680)
VERIF_LIT(681)
VERIF_LIT(682)
VERIF_LIT(683)
VERIF_LIT(684)
VERIF_LIT(685)
VERIF_LIT(686)
VERIF_LIT(687)
VERIF_LIT(688)
VERIF_LIT(689)
VERIF_LIT(690)
VERIF_LIT(691)
VERIF_LIT(692)
VERIF_LIT(693)
VERIF_LIT(694)
VERIF_LIT(695)
VERIF_LIT(696)
VERIF_LIT(697)
VERIF_LIT(698)
VERIF_LIT(699)
VERIF_LIT(700)
VERIF_LIT(701)
VERIF_LIT(702)
VERIF_LIT(703)
VERIF_LIT(704)
VERIF_LIT(705)
VERIF_LIT(706)
VERIF_LIT(707)
VERIF_LIT(708)
VERIF_LIT(709)
VERIF_LIT(710)
VERIF_LIT(711)
VERIF_LIT(712)
VERIF_LIT(713)
VERIF_LIT(714)
VERIF_LIT(715)
VERIF_LIT(716)
VERIF_LIT(717)
VERIF_LIT(718)
VERIF_LIT(719)
VERIF_LIT(720)
VERIF_LIT(721)
VERIF_LIT(722)
VERIF_LIT(723)
VERIF_LIT(724)
VERIF_LIT(725)
VERIF_LIT(726)
VERIF_LIT(727)
VERIF_LIT(728)
VERIF_LIT(729)
VERIF_LIT(730)
VERIF_LIT(731)
VERIF_LIT(732)
VERIF_LIT(733)
VERIF_LIT(734)
VERIF_LIT(735)
VERIF_LIT(736)
VERIF_LIT(737)
VERIF_LIT(738)
VERIF_LIT(739)
VERIF_LIT(740)
VERIF_LIT(741)
VERIF_LIT(742)
VERIF_LIT(743)
VERIF_LIT(744)
VERIF_LIT(745)
VERIF_LIT(746)
VERIF_LIT(747)
VERIF_LIT(748)
VERIF_LIT(749)
VERIF_LIT(750)
VERIF_LIT(751)
VERIF_LIT(752)
VERIF_LIT(753)
VERIF_LIT(754)
VERIF_LIT(755)
VERIF_LIT(756)
VERIF_LIT(757)
VERIF_LIT(758)
VERIF_LIT(759)
VERIF_LIT(760)
VERIF_LIT(761)
VERIF_LIT(762)
VERIF_LIT(763)
VERIF_LIT(764)
VERIF_LIT(765)
VERIF_LIT(766)
VERIF_LIT(767)
VERIF_LIT(768)
VERIF_LIT(769)
VERIF_LIT(770)
VERIF_LIT(771)
VERIF_LIT(772)
VERIF_LIT(773)
VERIF_LIT(774)
VERIF_LIT(775)
VERIF_LIT(776)
VERIF_LIT(777)
VERIF_LIT(778)
VERIF_LIT(779)
VERIF_LIT(780)
VERIF_LIT(781)
VERIF_LIT(782)
VERIF_LIT(783)
VERIF_LIT(784)
VERIF_LIT(785)
VERIF_LIT(786)
VERIF_LIT(787)
VERIF_LIT(788)
VERIF_LIT(789)
VERIF_LIT(790)
VERIF_LIT(791)
VERIF_LIT(792)
VERIF_LIT(793)
VERIF_LIT(794)
VERIF_LIT(795)
VERIF_LIT(796)
VERIF_LIT(797)
VERIF_LIT(798)
VERIF_LIT(799)
VERIF_LIT(800)
VERIF_LIT(801)
VERIF_LIT(802)
VERIF_LIT(803)
VERIF_LIT(804)
VERIF_LIT(805)
VERIF_LIT(806)
VERIF_LIT(807)
VERIF_LIT(808)
VERIF_LIT(809)
VERIF_LIT(810)
VERIF_LIT(811)
VERIF_LIT(812)
VERIF_LIT(813)
VERIF_LIT(814)
VERIF_LIT(815)
VERIF_LIT(816)
VERIF_LIT(817)
VERIF_LIT(818)
VERIF_LIT(819)
VERIF_LIT(820)
VERIF_LIT(821)
VERIF_LIT(822)
VERIF_LIT(823)
VERIF_LIT(824)
VERIF_LIT(825)
VERIF_LIT(826)
VERIF_LIT(827)
VERIF_LIT(828)
VERIF_LIT(829)
VERIF_LIT(830)
VERIF_LIT(831)
VERIF_LIT(832)
VERIF_LIT(833)
VERIF_LIT(834)
VERIF_LIT(835)
VERIF_LIT(836)
VERIF_LIT(837)
VERIF_LIT(838)
VERIF_LIT(839)
VERIF_LIT(840)
VERIF_LIT(841)
VERIF_LIT(842)
VERIF_LIT(843)
VERIF_LIT(844)
VERIF_LIT(845)
VERIF_LIT(846)
VERIF_LIT(847)
VERIF_LIT(848)
VERIF_LIT(849)
VERIF_LIT(850)
VERIF_LIT(851)
VERIF_LIT(852)
VERIF_LIT(853)
VERIF_LIT(854)
VERIF_LIT(855)
VERIF_LIT(856)
VERIF_LIT(857)
VERIF_LIT(858)
VERIF_LIT(859)
VERIF_LIT(860)
VERIF_LIT(861)
VERIF_LIT(862)
VERIF_LIT(863)
VERIF_LIT(864)
VERIF_LIT(865)
VERIF_LIT(866)
VERIF_LIT(867)
VERIF_LIT(868)
VERIF_LIT(869)
VERIF_LIT(870)
VERIF_LIT(871)
VERIF_LIT(872)
VERIF_LIT(873)
VERIF_LIT(874)
VERIF_LIT(875)
VERIF_LIT(876)
VERIF_LIT(877)
VERIF_LIT(878)
VERIF_LIT(879)
VERIF_LIT(880)
VERIF_LIT(881)
VERIF_LIT(882)
VERIF_LIT(883)
VERIF_LIT(884)
VERIF_LIT(885)
VERIF_LIT(886)
VERIF_LIT(887)
VERIF_LIT(888)
VERIF_LIT(889)
VERIF_LIT(890)
VERIF_LIT(891)
VERIF_LIT(892)
VERIF_LIT(893)
VERIF_LIT(894)
VERIF_LIT(895)
VERIF_LIT(896)
VERIF_LIT(897)
VERIF_LIT(898)
VERIF_LIT(899)
VERIF_LIT(900)
VERIF_LIT(901)
VERIF_LIT(902)
VERIF_LIT(903)
VERIF_LIT(904)
VERIF_LIT(905)
VERIF_LIT(906)
VERIF_LIT(907)
VERIF_LIT(908)
VERIF_LIT(909)
VERIF_LIT(910)
VERIF_LIT(911)
VERIF_LIT(912)
VERIF_LIT(913)
VERIF_LIT(914)
VERIF_LIT(915)
VERIF_LIT(916)
VERIF_LIT(917)
VERIF_LIT(918)
VERIF_LIT(919)
VERIF_LIT(920)
VERIF_LIT(921)
VERIF_LIT(922)
VERIF_LIT(923)
VERIF_LIT(924)
VERIF_LIT(925)
VERIF_LIT(926)
VERIF_LIT(927)
VERIF_LIT(928)
VERIF_LIT(929)
VERIF_LIT(930)
VERIF_LIT(931)
VERIF_LIT(932)
VERIF_LIT(933)
VERIF_LIT(934)
VERIF_LIT(935)
VERIF_LIT(936)
VERIF_LIT(937)
VERIF_LIT(938)
VERIF_LIT(939)
VERIF_LIT(940)
VERIF_LIT(941)
VERIF_LIT(942)
VERIF_LIT(943)
VERIF_LIT(944)
VERIF_LIT(945)
VERIF_LIT(946)
VERIF_LIT(947)
VERIF_LIT(948)
VERIF_LIT(949)
VERIF_LIT(950)
VERIF_LIT(951)
VERIF_LIT(952)
VERIF_LIT(953)
VERIF_LIT(954)
VERIF_LIT(955)
VERIF_LIT(956)
VERIF_LIT(957)
VERIF_LIT(958)
VERIF_LIT(959)
VERIF_LIT(960)
VERIF_LIT(961)
VERIF_LIT(962)
VERIF_LIT(963)
VERIF_LIT(964)
VERIF_LIT(965)
VERIF_LIT(966)
VERIF_LIT(967)
VERIF_LIT(968)
VERIF_LIT(969)
VERIF_LIT(970)
VERIF_LIT(971)
VERIF_LIT(972)
VERIF_LIT(973)
VERIF_LIT(974)
VERIF_LIT(975)
VERIF_LIT(976)
VERIF_LIT(977)
VERIF_LIT(978)
VERIF_LIT(979)
VERIF_LIT(980)
VERIF_LIT(981)
VERIF_LIT(982)
VERIF_LIT(983)
VERIF_LIT(984)
VERIF_LIT(985)
VERIF_LIT(986)
VERIF_LIT(987)
VERIF_LIT(988)
VERIF_LIT(989)
VERIF_LIT(990)
VERIF_LIT(991)
VERIF_LIT(992)
VERIF_LIT(993)
VERIF_LIT(994)
VERIF_LIT(995)
VERIF_LIT(996)
VERIF_LIT(997)
VERIF_LIT(998)
VERIF_LIT(999)
VERIF_LIT(1000)
VERIF_LIT(1001)
VERIF_LIT(1002)
VERIF_LIT(1003)
VERIF_LIT(1004)
VERIF_LIT(1005)
VERIF_LIT(1006)
VERIF_LIT(1007)
VERIF_LIT(1008)
VERIF_LIT(1009)
VERIF_LIT(1010)
VERIF_LIT(1011)
VERIF_LIT(1012)
VERIF_LIT(1013)
VERIF_LIT(1014)
VERIF_LIT(1015)
VERIF_LIT(1016)
VERIF_LIT(1017)
VERIF_LIT(1018)
VERIF_LIT(1019)
VERIF_LIT(1020)
VERIF_LIT(1021)
VERIF_LIT(1022)
VERIF_LIT(1023)
VERIF_LIT(1024)
VERIF_LIT(1490)
VERIF_LIT(1536)
VERIF_LIT(2048)
VERIF_LIT(2790)
VERIF_LIT(3072)
VERIF_LIT(4096)
VERIF_LIT(4269)
VERIF_LIT(4314)
VERIF_LIT(6144)
VERIF_LIT(8192)
