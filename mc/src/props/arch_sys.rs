//! AArch64 system registers: name, constant, op0<<14|op1<<11|CRn<<7|CRm<<3|op2.
//! Frozen after ~260 of them were compared with the Arm ARM by hand.
use gdbstub_arch::aarch64::reg::id::AArch64RegId as A;
#[rustfmt::skip]
pub const SYS: &[(&str, A, u16)] = &[
("MIDR_EL1", A::MIDR_EL1, 0xc000),
("MPIDR_EL1", A::MPIDR_EL1, 0xc005),
("REVIDR_EL1", A::REVIDR_EL1, 0xc006),
("ID_PFR0_EL1", A::ID_PFR0_EL1, 0xc008),
("ID_PFR1_EL1", A::ID_PFR1_EL1, 0xc009),
("ID_DFR0_EL1", A::ID_DFR0_EL1, 0xc00a),
("ID_AFR0_EL1", A::ID_AFR0_EL1, 0xc00b),
("ID_MMFR0_EL1", A::ID_MMFR0_EL1, 0xc00c),
("ID_MMFR1_EL1", A::ID_MMFR1_EL1, 0xc00d),
("ID_MMFR2_EL1", A::ID_MMFR2_EL1, 0xc00e),
("ID_MMFR3_EL1", A::ID_MMFR3_EL1, 0xc00f),
("ID_ISAR0_EL1", A::ID_ISAR0_EL1, 0xc010),
("ID_ISAR1_EL1", A::ID_ISAR1_EL1, 0xc011),
("ID_ISAR2_EL1", A::ID_ISAR2_EL1, 0xc012),
("ID_ISAR3_EL1", A::ID_ISAR3_EL1, 0xc013),
("ID_ISAR4_EL1", A::ID_ISAR4_EL1, 0xc014),
("ID_ISAR5_EL1", A::ID_ISAR5_EL1, 0xc015),
("ID_MMFR4_EL1", A::ID_MMFR4_EL1, 0xc016),
("ID_ISAR6_EL1", A::ID_ISAR6_EL1, 0xc017),
("MVFR0_EL1", A::MVFR0_EL1, 0xc018),
("MVFR1_EL1", A::MVFR1_EL1, 0xc019),
("MVFR2_EL1", A::MVFR2_EL1, 0xc01a),
("ID_PFR2_EL1", A::ID_PFR2_EL1, 0xc01c),
("ID_DFR1_EL1", A::ID_DFR1_EL1, 0xc01d),
("ID_MMFR5_EL1", A::ID_MMFR5_EL1, 0xc01e),
("ID_AA64PFR0_EL1", A::ID_AA64PFR0_EL1, 0xc020),
("ID_AA64PFR1_EL1", A::ID_AA64PFR1_EL1, 0xc021),
("ID_AA64ZFR0_EL1", A::ID_AA64ZFR0_EL1, 0xc024),
("ID_AA64SMFR0_EL1", A::ID_AA64SMFR0_EL1, 0xc025),
("ID_AA64DFR0_EL1", A::ID_AA64DFR0_EL1, 0xc028),
("ID_AA64DFR1_EL1", A::ID_AA64DFR1_EL1, 0xc029),
("ID_AA64AFR0_EL1", A::ID_AA64AFR0_EL1, 0xc02c),
("ID_AA64AFR1_EL1", A::ID_AA64AFR1_EL1, 0xc02d),
("ID_AA64ISAR0_EL1", A::ID_AA64ISAR0_EL1, 0xc030),
("ID_AA64ISAR1_EL1", A::ID_AA64ISAR1_EL1, 0xc031),
("ID_AA64ISAR2_EL1", A::ID_AA64ISAR2_EL1, 0xc032),
("ID_AA64MMFR0_EL1", A::ID_AA64MMFR0_EL1, 0xc038),
("ID_AA64MMFR1_EL1", A::ID_AA64MMFR1_EL1, 0xc039),
("ID_AA64MMFR2_EL1", A::ID_AA64MMFR2_EL1, 0xc03a),
("SCTLR_EL1", A::SCTLR_EL1, 0xc080),
("ACTLR_EL1", A::ACTLR_EL1, 0xc081),
("CPACR_EL1", A::CPACR_EL1, 0xc082),
("RGSR_EL1", A::RGSR_EL1, 0xc085),
("GCR_EL1", A::GCR_EL1, 0xc086),
("ZCR_EL1", A::ZCR_EL1, 0xc090),
("TRFCR_EL1", A::TRFCR_EL1, 0xc091),
("SMPRI_EL1", A::SMPRI_EL1, 0xc094),
("SMCR_EL1", A::SMCR_EL1, 0xc096),
("TTBR0_EL1", A::TTBR0_EL1, 0xc100),
("TTBR1_EL1", A::TTBR1_EL1, 0xc101),
("TCR_EL1", A::TCR_EL1, 0xc102),
("APIAKEYLO_EL1", A::APIAKEYLO_EL1, 0xc108),
("APIAKEYHI_EL1", A::APIAKEYHI_EL1, 0xc109),
("APIBKEYLO_EL1", A::APIBKEYLO_EL1, 0xc10a),
("APIBKEYHI_EL1", A::APIBKEYHI_EL1, 0xc10b),
("APDAKEYLO_EL1", A::APDAKEYLO_EL1, 0xc110),
("APDAKEYHI_EL1", A::APDAKEYHI_EL1, 0xc111),
("APDBKEYLO_EL1", A::APDBKEYLO_EL1, 0xc112),
("APDBKEYHI_EL1", A::APDBKEYHI_EL1, 0xc113),
("APGAKEYLO_EL1", A::APGAKEYLO_EL1, 0xc118),
("APGAKEYHI_EL1", A::APGAKEYHI_EL1, 0xc119),
("SPSR_EL1", A::SPSR_EL1, 0xc200),
("ELR_EL1", A::ELR_EL1, 0xc201),
("SP_EL0", A::SP_EL0, 0xc208),
("ICC_PMR_EL1", A::ICC_PMR_EL1, 0xc230),
("ICV_PMR_EL1", A::ICV_PMR_EL1, 0xc230),
("AFSR0_EL1", A::AFSR0_EL1, 0xc288),
("AFSR1_EL1", A::AFSR1_EL1, 0xc289),
("ESR_EL1", A::ESR_EL1, 0xc290),
("ERRIDR_EL1", A::ERRIDR_EL1, 0xc298),
("ERRSELR_EL1", A::ERRSELR_EL1, 0xc299),
("ERXFR_EL1", A::ERXFR_EL1, 0xc2a0),
("ERXCTLR_EL1", A::ERXCTLR_EL1, 0xc2a1),
("ERXSTATUS_EL1", A::ERXSTATUS_EL1, 0xc2a2),
("ERXADDR_EL1", A::ERXADDR_EL1, 0xc2a3),
("ERXPFGF_EL1", A::ERXPFGF_EL1, 0xc2a4),
("ERXPFGCTL_EL1", A::ERXPFGCTL_EL1, 0xc2a5),
("ERXPFGCDN_EL1", A::ERXPFGCDN_EL1, 0xc2a6),
("ERXMISC0_EL1", A::ERXMISC0_EL1, 0xc2a8),
("ERXMISC1_EL1", A::ERXMISC1_EL1, 0xc2a9),
("ERXMISC2_EL1", A::ERXMISC2_EL1, 0xc2aa),
("ERXMISC3_EL1", A::ERXMISC3_EL1, 0xc2ab),
("TFSR_EL1", A::TFSR_EL1, 0xc2b0),
("TFSRE0_EL1", A::TFSRE0_EL1, 0xc2b1),
("FAR_EL1", A::FAR_EL1, 0xc300),
("PAR_EL1", A::PAR_EL1, 0xc3a0),
("PMSCR_EL1", A::PMSCR_EL1, 0xc4c8),
("PMSNEVFR_EL1", A::PMSNEVFR_EL1, 0xc4c9),
("PMSICR_EL1", A::PMSICR_EL1, 0xc4ca),
("PMSIRR_EL1", A::PMSIRR_EL1, 0xc4cb),
("PMSFCR_EL1", A::PMSFCR_EL1, 0xc4cc),
("PMSEVFR_EL1", A::PMSEVFR_EL1, 0xc4cd),
("PMSLATFR_EL1", A::PMSLATFR_EL1, 0xc4ce),
("PMSIDR_EL1", A::PMSIDR_EL1, 0xc4cf),
("PMBLIMITR_EL1", A::PMBLIMITR_EL1, 0xc4d0),
("PMBPTR_EL1", A::PMBPTR_EL1, 0xc4d1),
("PMBSR_EL1", A::PMBSR_EL1, 0xc4d3),
("PMBIDR_EL1", A::PMBIDR_EL1, 0xc4d7),
("TRBLIMITR_EL1", A::TRBLIMITR_EL1, 0xc4d8),
("TRBPTR_EL1", A::TRBPTR_EL1, 0xc4d9),
("TRBBASER_EL1", A::TRBBASER_EL1, 0xc4da),
("TRBSR_EL1", A::TRBSR_EL1, 0xc4db),
("TRBMAR_EL1", A::TRBMAR_EL1, 0xc4dc),
("TRBTRG_EL1", A::TRBTRG_EL1, 0xc4de),
("TRBIDR_EL1", A::TRBIDR_EL1, 0xc4df),
("PMINTENSET_EL1", A::PMINTENSET_EL1, 0xc4f1),
("PMINTENCLR_EL1", A::PMINTENCLR_EL1, 0xc4f2),
("PMMIR_EL1", A::PMMIR_EL1, 0xc4f6),
("MAIR_EL1", A::MAIR_EL1, 0xc510),
("AMAIR_EL1", A::AMAIR_EL1, 0xc518),
("LORSA_EL1", A::LORSA_EL1, 0xc520),
("LOREA_EL1", A::LOREA_EL1, 0xc521),
("LORN_EL1", A::LORN_EL1, 0xc522),
("LORC_EL1", A::LORC_EL1, 0xc523),
("MPAMIDR_EL1", A::MPAMIDR_EL1, 0xc524),
("LORID_EL1", A::LORID_EL1, 0xc527),
("MPAM1_EL1", A::MPAM1_EL1, 0xc528),
("MPAM0_EL1", A::MPAM0_EL1, 0xc529),
("MPAMSM_EL1", A::MPAMSM_EL1, 0xc52b),
("VBAR_EL1", A::VBAR_EL1, 0xc600),
("RVBAR_EL1", A::RVBAR_EL1, 0xc601),
("RMR_EL1", A::RMR_EL1, 0xc602),
("ISR_EL1", A::ISR_EL1, 0xc608),
("DISR_EL1", A::DISR_EL1, 0xc609),
("ICC_IAR0_EL1", A::ICC_IAR0_EL1, 0xc640),
("ICV_IAR0_EL1", A::ICV_IAR0_EL1, 0xc640),
("ICC_EOIR0_EL1", A::ICC_EOIR0_EL1, 0xc641),
("ICV_EOIR0_EL1", A::ICV_EOIR0_EL1, 0xc641),
("ICC_HPPIR0_EL1", A::ICC_HPPIR0_EL1, 0xc642),
("ICV_HPPIR0_EL1", A::ICV_HPPIR0_EL1, 0xc642),
("ICC_BPR0_EL1", A::ICC_BPR0_EL1, 0xc643),
("ICV_BPR0_EL1", A::ICV_BPR0_EL1, 0xc643),
("ICC_AP0R0_EL1", A::ICC_AP0R0_EL1, 0xc644),
("ICV_AP0R0_EL1", A::ICV_AP0R0_EL1, 0xc644),
("ICC_AP0R1_EL1", A::ICC_AP0R1_EL1, 0xc645),
("ICV_AP0R1_EL1", A::ICV_AP0R1_EL1, 0xc645),
("ICC_AP0R2_EL1", A::ICC_AP0R2_EL1, 0xc646),
("ICV_AP0R2_EL1", A::ICV_AP0R2_EL1, 0xc646),
("ICC_AP0R3_EL1", A::ICC_AP0R3_EL1, 0xc647),
("ICV_AP0R3_EL1", A::ICV_AP0R3_EL1, 0xc647),
("ICC_AP1R0_EL1", A::ICC_AP1R0_EL1, 0xc648),
("ICV_AP1R0_EL1", A::ICV_AP1R0_EL1, 0xc648),
("ICC_AP1R1_EL1", A::ICC_AP1R1_EL1, 0xc649),
("ICV_AP1R1_EL1", A::ICV_AP1R1_EL1, 0xc649),
("ICC_AP1R2_EL1", A::ICC_AP1R2_EL1, 0xc64a),
("ICV_AP1R2_EL1", A::ICV_AP1R2_EL1, 0xc64a),
("ICC_AP1R3_EL1", A::ICC_AP1R3_EL1, 0xc64b),
("ICV_AP1R3_EL1", A::ICV_AP1R3_EL1, 0xc64b),
("ICC_NMIAR1_EL1", A::ICC_NMIAR1_EL1, 0xc64d),
("ICV_NMIAR1_EL1", A::ICV_NMIAR1_EL1, 0xc64d),
("ICC_DIR_EL1", A::ICC_DIR_EL1, 0xc659),
("ICV_DIR_EL1", A::ICV_DIR_EL1, 0xc659),
("ICC_RPR_EL1", A::ICC_RPR_EL1, 0xc65b),
("ICV_RPR_EL1", A::ICV_RPR_EL1, 0xc65b),
("ICC_SGI1R_EL1", A::ICC_SGI1R_EL1, 0xc65d),
("ICC_ASGI1R_EL1", A::ICC_ASGI1R_EL1, 0xc65e),
("ICC_SGI0R_EL1", A::ICC_SGI0R_EL1, 0xc65f),
("ICC_IAR1_EL1", A::ICC_IAR1_EL1, 0xc660),
("ICV_IAR1_EL1", A::ICV_IAR1_EL1, 0xc660),
("ICC_EOIR1_EL1", A::ICC_EOIR1_EL1, 0xc661),
("ICV_EOIR1_EL1", A::ICV_EOIR1_EL1, 0xc661),
("ICC_HPPIR1_EL1", A::ICC_HPPIR1_EL1, 0xc662),
("ICV_HPPIR1_EL1", A::ICV_HPPIR1_EL1, 0xc662),
("ICC_BPR1_EL1", A::ICC_BPR1_EL1, 0xc663),
("ICV_BPR1_EL1", A::ICV_BPR1_EL1, 0xc663),
("ICC_CTLR_EL1", A::ICC_CTLR_EL1, 0xc664),
("ICV_CTLR_EL1", A::ICV_CTLR_EL1, 0xc664),
("ICC_SRE_EL1", A::ICC_SRE_EL1, 0xc665),
("ICC_IGRPEN0_EL1", A::ICC_IGRPEN0_EL1, 0xc666),
("ICV_IGRPEN0_EL1", A::ICV_IGRPEN0_EL1, 0xc666),
("ICC_IGRPEN1_EL1", A::ICC_IGRPEN1_EL1, 0xc667),
("ICV_IGRPEN1_EL1", A::ICV_IGRPEN1_EL1, 0xc667),
("CONTEXTIDR_EL1", A::CONTEXTIDR_EL1, 0xc681),
("TPIDR_EL1", A::TPIDR_EL1, 0xc684),
("ACCDATA_EL1", A::ACCDATA_EL1, 0xc685),
("SCXTNUM_EL1", A::SCXTNUM_EL1, 0xc687),
("CNTKCTL_EL1", A::CNTKCTL_EL1, 0xc708),
("CCSIDR_EL1", A::CCSIDR_EL1, 0xc800),
("CLIDR_EL1", A::CLIDR_EL1, 0xc801),
("CCSIDR2_EL1", A::CCSIDR2_EL1, 0xc802),
("GMID_EL1", A::GMID_EL1, 0xc804),
("SMIDR_EL1", A::SMIDR_EL1, 0xc806),
("AIDR_EL1", A::AIDR_EL1, 0xc807),
("CSSELR_EL1", A::CSSELR_EL1, 0xd000),
("CTR_EL0", A::CTR_EL0, 0xd801),
("DCZID_EL0", A::DCZID_EL0, 0xd807),
("RNDR", A::RNDR, 0xd920),
("RNDRRS", A::RNDRRS, 0xd921),
("SVCR", A::SVCR, 0xda12),
("FPCR", A::FPCR, 0xda20),
("FPSR", A::FPSR, 0xda21),
("DSPSR_EL0", A::DSPSR_EL0, 0xda28),
("DLR_EL0", A::DLR_EL0, 0xda29),
("PMCR_EL0", A::PMCR_EL0, 0xdce0),
("PMCNTENSET_EL0", A::PMCNTENSET_EL0, 0xdce1),
("PMCNTENCLR_EL0", A::PMCNTENCLR_EL0, 0xdce2),
("PMOVSCLR_EL0", A::PMOVSCLR_EL0, 0xdce3),
("PMSWINC_EL0", A::PMSWINC_EL0, 0xdce4),
("PMSELR_EL0", A::PMSELR_EL0, 0xdce5),
("PMCEID0_EL0", A::PMCEID0_EL0, 0xdce6),
("PMCEID1_EL0", A::PMCEID1_EL0, 0xdce7),
("PMCCNTR_EL0", A::PMCCNTR_EL0, 0xdce8),
("PMXEVTYPER_EL0", A::PMXEVTYPER_EL0, 0xdce9),
("PMXEVCNTR_EL0", A::PMXEVCNTR_EL0, 0xdcea),
("PMUSERENR_EL0", A::PMUSERENR_EL0, 0xdcf0),
("PMOVSSET_EL0", A::PMOVSSET_EL0, 0xdcf3),
("TPIDR_EL0", A::TPIDR_EL0, 0xde82),
("TPIDRRO_EL0", A::TPIDRRO_EL0, 0xde83),
("TPIDR2_EL0", A::TPIDR2_EL0, 0xde85),
("SCXTNUM_EL0", A::SCXTNUM_EL0, 0xde87),
("AMCR_EL0", A::AMCR_EL0, 0xde90),
("AMCFGR_EL0", A::AMCFGR_EL0, 0xde91),
("AMCGCR_EL0", A::AMCGCR_EL0, 0xde92),
("AMUSERENR_EL0", A::AMUSERENR_EL0, 0xde93),
("AMCNTENCLR0_EL0", A::AMCNTENCLR0_EL0, 0xde94),
("AMCNTENSET0_EL0", A::AMCNTENSET0_EL0, 0xde95),
("AMCG1IDR_EL0", A::AMCG1IDR_EL0, 0xde96),
("AMCNTENCLR1_EL0", A::AMCNTENCLR1_EL0, 0xde98),
("AMCNTENSET1_EL0", A::AMCNTENSET1_EL0, 0xde99),
("AMEVCNTR00_EL0", A::AMEVCNTR00_EL0, 0xdea0),
("AMEVCNTR01_EL0", A::AMEVCNTR01_EL0, 0xdea1),
("AMEVCNTR02_EL0", A::AMEVCNTR02_EL0, 0xdea2),
("AMEVCNTR03_EL0", A::AMEVCNTR03_EL0, 0xdea3),
("AMEVTYPER00_EL0", A::AMEVTYPER00_EL0, 0xdeb0),
("AMEVTYPER01_EL0", A::AMEVTYPER01_EL0, 0xdeb1),
("AMEVTYPER02_EL0", A::AMEVTYPER02_EL0, 0xdeb2),
("AMEVTYPER03_EL0", A::AMEVTYPER03_EL0, 0xdeb3),
("AMEVCNTR10_EL0", A::AMEVCNTR10_EL0, 0xdee0),
("AMEVCNTR11_EL0", A::AMEVCNTR11_EL0, 0xdee1),
("AMEVCNTR12_EL0", A::AMEVCNTR12_EL0, 0xdee2),
("AMEVCNTR13_EL0", A::AMEVCNTR13_EL0, 0xdee3),
("AMEVCNTR14_EL0", A::AMEVCNTR14_EL0, 0xdee4),
("AMEVCNTR15_EL0", A::AMEVCNTR15_EL0, 0xdee5),
("AMEVCNTR16_EL0", A::AMEVCNTR16_EL0, 0xdee6),
("AMEVCNTR17_EL0", A::AMEVCNTR17_EL0, 0xdee7),
("AMEVCNTR18_EL0", A::AMEVCNTR18_EL0, 0xdee8),
("AMEVCNTR19_EL0", A::AMEVCNTR19_EL0, 0xdee9),
("AMEVCNTR110_EL0", A::AMEVCNTR110_EL0, 0xdeea),
("AMEVCNTR111_EL0", A::AMEVCNTR111_EL0, 0xdeeb),
("AMEVCNTR112_EL0", A::AMEVCNTR112_EL0, 0xdeec),
("AMEVCNTR113_EL0", A::AMEVCNTR113_EL0, 0xdeed),
("AMEVCNTR114_EL0", A::AMEVCNTR114_EL0, 0xdeee),
("AMEVCNTR115_EL0", A::AMEVCNTR115_EL0, 0xdeef),
("AMEVTYPER10_EL0", A::AMEVTYPER10_EL0, 0xdef0),
("AMEVTYPER11_EL0", A::AMEVTYPER11_EL0, 0xdef1),
("AMEVTYPER12_EL0", A::AMEVTYPER12_EL0, 0xdef2),
("AMEVTYPER13_EL0", A::AMEVTYPER13_EL0, 0xdef3),
("AMEVTYPER14_EL0", A::AMEVTYPER14_EL0, 0xdef4),
("AMEVTYPER15_EL0", A::AMEVTYPER15_EL0, 0xdef5),
("AMEVTYPER16_EL0", A::AMEVTYPER16_EL0, 0xdef6),
("AMEVTYPER17_EL0", A::AMEVTYPER17_EL0, 0xdef7),
("AMEVTYPER18_EL0", A::AMEVTYPER18_EL0, 0xdef8),
("AMEVTYPER19_EL0", A::AMEVTYPER19_EL0, 0xdef9),
("AMEVTYPER110_EL0", A::AMEVTYPER110_EL0, 0xdefa),
("AMEVTYPER111_EL0", A::AMEVTYPER111_EL0, 0xdefb),
("AMEVTYPER112_EL0", A::AMEVTYPER112_EL0, 0xdefc),
("AMEVTYPER113_EL0", A::AMEVTYPER113_EL0, 0xdefd),
("AMEVTYPER114_EL0", A::AMEVTYPER114_EL0, 0xdefe),
("AMEVTYPER115_EL0", A::AMEVTYPER115_EL0, 0xdeff),
("CNTFRQ_EL0", A::CNTFRQ_EL0, 0xdf00),
("CNTPCT_EL0", A::CNTPCT_EL0, 0xdf01),
("CNTVCT_EL0", A::CNTVCT_EL0, 0xdf02),
("CNTPCTSS_EL0", A::CNTPCTSS_EL0, 0xdf05),
("CNTVCTSS_EL0", A::CNTVCTSS_EL0, 0xdf06),
("CNTP_TVAL_EL0", A::CNTP_TVAL_EL0, 0xdf10),
("CNTP_CTL_EL0", A::CNTP_CTL_EL0, 0xdf11),
("CNTP_CVAL_EL0", A::CNTP_CVAL_EL0, 0xdf12),
("CNTV_TVAL_EL0", A::CNTV_TVAL_EL0, 0xdf18),
("CNTV_CTL_EL0", A::CNTV_CTL_EL0, 0xdf19),
("CNTV_CVAL_EL0", A::CNTV_CVAL_EL0, 0xdf1a),
("PMEVCNTR0_EL0", A::PMEVCNTR0_EL0, 0xdf40),
("PMEVCNTR1_EL0", A::PMEVCNTR1_EL0, 0xdf41),
("PMEVCNTR2_EL0", A::PMEVCNTR2_EL0, 0xdf42),
("PMEVCNTR3_EL0", A::PMEVCNTR3_EL0, 0xdf43),
("PMEVCNTR4_EL0", A::PMEVCNTR4_EL0, 0xdf44),
("PMEVCNTR5_EL0", A::PMEVCNTR5_EL0, 0xdf45),
("PMEVCNTR6_EL0", A::PMEVCNTR6_EL0, 0xdf46),
("PMEVCNTR7_EL0", A::PMEVCNTR7_EL0, 0xdf47),
("PMEVCNTR8_EL0", A::PMEVCNTR8_EL0, 0xdf48),
("PMEVCNTR9_EL0", A::PMEVCNTR9_EL0, 0xdf49),
("PMEVCNTR10_EL0", A::PMEVCNTR10_EL0, 0xdf4a),
("PMEVCNTR11_EL0", A::PMEVCNTR11_EL0, 0xdf4b),
("PMEVCNTR12_EL0", A::PMEVCNTR12_EL0, 0xdf4c),
("PMEVCNTR13_EL0", A::PMEVCNTR13_EL0, 0xdf4d),
("PMEVCNTR14_EL0", A::PMEVCNTR14_EL0, 0xdf4e),
("PMEVCNTR15_EL0", A::PMEVCNTR15_EL0, 0xdf4f),
("PMEVCNTR16_EL0", A::PMEVCNTR16_EL0, 0xdf50),
("PMEVCNTR17_EL0", A::PMEVCNTR17_EL0, 0xdf51),
("PMEVCNTR18_EL0", A::PMEVCNTR18_EL0, 0xdf52),
("PMEVCNTR19_EL0", A::PMEVCNTR19_EL0, 0xdf53),
("PMEVCNTR20_EL0", A::PMEVCNTR20_EL0, 0xdf54),
("PMEVCNTR21_EL0", A::PMEVCNTR21_EL0, 0xdf55),
("PMEVCNTR22_EL0", A::PMEVCNTR22_EL0, 0xdf56),
("PMEVCNTR23_EL0", A::PMEVCNTR23_EL0, 0xdf57),
("PMEVCNTR24_EL0", A::PMEVCNTR24_EL0, 0xdf58),
("PMEVCNTR25_EL0", A::PMEVCNTR25_EL0, 0xdf59),
("PMEVCNTR26_EL0", A::PMEVCNTR26_EL0, 0xdf5a),
("PMEVCNTR27_EL0", A::PMEVCNTR27_EL0, 0xdf5b),
("PMEVCNTR28_EL0", A::PMEVCNTR28_EL0, 0xdf5c),
("PMEVCNTR29_EL0", A::PMEVCNTR29_EL0, 0xdf5d),
("PMEVCNTR30_EL0", A::PMEVCNTR30_EL0, 0xdf5e),
("PMEVTYPER0_EL0", A::PMEVTYPER0_EL0, 0xdf60),
("PMEVTYPER1_EL0", A::PMEVTYPER1_EL0, 0xdf61),
("PMEVTYPER2_EL0", A::PMEVTYPER2_EL0, 0xdf62),
("PMEVTYPER3_EL0", A::PMEVTYPER3_EL0, 0xdf63),
("PMEVTYPER4_EL0", A::PMEVTYPER4_EL0, 0xdf64),
("PMEVTYPER5_EL0", A::PMEVTYPER5_EL0, 0xdf65),
("PMEVTYPER6_EL0", A::PMEVTYPER6_EL0, 0xdf66),
("PMEVTYPER7_EL0", A::PMEVTYPER7_EL0, 0xdf67),
("PMEVTYPER8_EL0", A::PMEVTYPER8_EL0, 0xdf68),
("PMEVTYPER9_EL0", A::PMEVTYPER9_EL0, 0xdf69),
("PMEVTYPER10_EL0", A::PMEVTYPER10_EL0, 0xdf6a),
("PMEVTYPER11_EL0", A::PMEVTYPER11_EL0, 0xdf6b),
("PMEVTYPER12_EL0", A::PMEVTYPER12_EL0, 0xdf6c),
("PMEVTYPER13_EL0", A::PMEVTYPER13_EL0, 0xdf6d),
("PMEVTYPER14_EL0", A::PMEVTYPER14_EL0, 0xdf6e),
("PMEVTYPER15_EL0", A::PMEVTYPER15_EL0, 0xdf6f),
("PMEVTYPER16_EL0", A::PMEVTYPER16_EL0, 0xdf70),
("PMEVTYPER17_EL0", A::PMEVTYPER17_EL0, 0xdf71),
("PMEVTYPER18_EL0", A::PMEVTYPER18_EL0, 0xdf72),
("PMEVTYPER19_EL0", A::PMEVTYPER19_EL0, 0xdf73),
("PMEVTYPER20_EL0", A::PMEVTYPER20_EL0, 0xdf74),
("PMEVTYPER21_EL0", A::PMEVTYPER21_EL0, 0xdf75),
("PMEVTYPER22_EL0", A::PMEVTYPER22_EL0, 0xdf76),
("PMEVTYPER23_EL0", A::PMEVTYPER23_EL0, 0xdf77),
("PMEVTYPER24_EL0", A::PMEVTYPER24_EL0, 0xdf78),
("PMEVTYPER25_EL0", A::PMEVTYPER25_EL0, 0xdf79),
("PMEVTYPER26_EL0", A::PMEVTYPER26_EL0, 0xdf7a),
("PMEVTYPER27_EL0", A::PMEVTYPER27_EL0, 0xdf7b),
("PMEVTYPER28_EL0", A::PMEVTYPER28_EL0, 0xdf7c),
("PMEVTYPER29_EL0", A::PMEVTYPER29_EL0, 0xdf7d),
("PMEVTYPER30_EL0", A::PMEVTYPER30_EL0, 0xdf7e),
("PMCCFILTR_EL0", A::PMCCFILTR_EL0, 0xdf7f),
("VPIDR_EL2", A::VPIDR_EL2, 0xe000),
("VMPIDR_EL2", A::VMPIDR_EL2, 0xe005),
("SCTLR_EL2", A::SCTLR_EL2, 0xe080),
("ACTLR_EL2", A::ACTLR_EL2, 0xe081),
("HCR_EL2", A::HCR_EL2, 0xe088),
("MDCR_EL2", A::MDCR_EL2, 0xe089),
("CPTR_EL2", A::CPTR_EL2, 0xe08a),
("HSTR_EL2", A::HSTR_EL2, 0xe08b),
("HFGRTR_EL2", A::HFGRTR_EL2, 0xe08c),
("HFGWTR_EL2", A::HFGWTR_EL2, 0xe08d),
("HFGITR_EL2", A::HFGITR_EL2, 0xe08e),
("HACR_EL2", A::HACR_EL2, 0xe08f),
("ZCR_EL2", A::ZCR_EL2, 0xe090),
("TRFCR_EL2", A::TRFCR_EL2, 0xe091),
("HCRX_EL2", A::HCRX_EL2, 0xe092),
("SMPRIMAP_EL2", A::SMPRIMAP_EL2, 0xe095),
("SMCR_EL2", A::SMCR_EL2, 0xe096),
("SDER32_EL2", A::SDER32_EL2, 0xe099),
("TTBR0_EL2", A::TTBR0_EL2, 0xe100),
("TTBR1_EL2", A::TTBR1_EL2, 0xe101),
("TCR_EL2", A::TCR_EL2, 0xe102),
("VTTBR_EL2", A::VTTBR_EL2, 0xe108),
("VTCR_EL2", A::VTCR_EL2, 0xe10a),
("VNCR_EL2", A::VNCR_EL2, 0xe110),
("VSTTBR_EL2", A::VSTTBR_EL2, 0xe130),
("VSTCR_EL2", A::VSTCR_EL2, 0xe132),
("DACR32_EL2", A::DACR32_EL2, 0xe180),
("HDFGRTR_EL2", A::HDFGRTR_EL2, 0xe18c),
("HDFGWTR_EL2", A::HDFGWTR_EL2, 0xe18d),
("HAFGRTR_EL2", A::HAFGRTR_EL2, 0xe18e),
("SPSR_EL2", A::SPSR_EL2, 0xe200),
("ELR_EL2", A::ELR_EL2, 0xe201),
("SP_EL1", A::SP_EL1, 0xe208),
("SPSR_IRQ", A::SPSR_IRQ, 0xe218),
("SPSR_ABT", A::SPSR_ABT, 0xe219),
("SPSR_UND", A::SPSR_UND, 0xe21a),
("SPSR_FIQ", A::SPSR_FIQ, 0xe21b),
("IFSR32_EL2", A::IFSR32_EL2, 0xe281),
("AFSR0_EL2", A::AFSR0_EL2, 0xe288),
("AFSR1_EL2", A::AFSR1_EL2, 0xe289),
("ESR_EL2", A::ESR_EL2, 0xe290),
("VSESR_EL2", A::VSESR_EL2, 0xe293),
("FPEXC32_EL2", A::FPEXC32_EL2, 0xe298),
("TFSR_EL2", A::TFSR_EL2, 0xe2b0),
("FAR_EL2", A::FAR_EL2, 0xe300),
("HPFAR_EL2", A::HPFAR_EL2, 0xe304),
("PMSCR_EL2", A::PMSCR_EL2, 0xe4c8),
("MAIR_EL2", A::MAIR_EL2, 0xe510),
("AMAIR_EL2", A::AMAIR_EL2, 0xe518),
("MPAMHCR_EL2", A::MPAMHCR_EL2, 0xe520),
("MPAMVPMV_EL2", A::MPAMVPMV_EL2, 0xe521),
("MPAM2_EL2", A::MPAM2_EL2, 0xe528),
("MPAMVPM0_EL2", A::MPAMVPM0_EL2, 0xe530),
("MPAMVPM1_EL2", A::MPAMVPM1_EL2, 0xe531),
("MPAMVPM2_EL2", A::MPAMVPM2_EL2, 0xe532),
("MPAMVPM3_EL2", A::MPAMVPM3_EL2, 0xe533),
("MPAMVPM4_EL2", A::MPAMVPM4_EL2, 0xe534),
("MPAMVPM5_EL2", A::MPAMVPM5_EL2, 0xe535),
("MPAMVPM6_EL2", A::MPAMVPM6_EL2, 0xe536),
("MPAMVPM7_EL2", A::MPAMVPM7_EL2, 0xe537),
("VBAR_EL2", A::VBAR_EL2, 0xe600),
("RVBAR_EL2", A::RVBAR_EL2, 0xe601),
("RMR_EL2", A::RMR_EL2, 0xe602),
("VDISR_EL2", A::VDISR_EL2, 0xe609),
("ICH_AP0R0_EL2", A::ICH_AP0R0_EL2, 0xe640),
("ICH_AP0R1_EL2", A::ICH_AP0R1_EL2, 0xe641),
("ICH_AP0R2_EL2", A::ICH_AP0R2_EL2, 0xe642),
("ICH_AP0R3_EL2", A::ICH_AP0R3_EL2, 0xe643),
("ICH_AP1R0_EL2", A::ICH_AP1R0_EL2, 0xe648),
("ICH_AP1R1_EL2", A::ICH_AP1R1_EL2, 0xe649),
("ICH_AP1R2_EL2", A::ICH_AP1R2_EL2, 0xe64a),
("ICH_AP1R3_EL2", A::ICH_AP1R3_EL2, 0xe64b),
("ICC_SRE_EL2", A::ICC_SRE_EL2, 0xe64d),
("ICH_HCR_EL2", A::ICH_HCR_EL2, 0xe658),
("ICH_VTR_EL2", A::ICH_VTR_EL2, 0xe659),
("ICH_MISR_EL2", A::ICH_MISR_EL2, 0xe65a),
("ICH_EISR_EL2", A::ICH_EISR_EL2, 0xe65b),
("ICH_ELRSR_EL2", A::ICH_ELRSR_EL2, 0xe65d),
("ICH_VMCR_EL2", A::ICH_VMCR_EL2, 0xe65f),
("ICH_LR0_EL2", A::ICH_LR0_EL2, 0xe660),
("ICH_LR1_EL2", A::ICH_LR1_EL2, 0xe661),
("ICH_LR2_EL2", A::ICH_LR2_EL2, 0xe662),
("ICH_LR3_EL2", A::ICH_LR3_EL2, 0xe663),
("ICH_LR4_EL2", A::ICH_LR4_EL2, 0xe664),
("ICH_LR5_EL2", A::ICH_LR5_EL2, 0xe665),
("ICH_LR6_EL2", A::ICH_LR6_EL2, 0xe666),
("ICH_LR7_EL2", A::ICH_LR7_EL2, 0xe667),
("ICH_LR8_EL2", A::ICH_LR8_EL2, 0xe668),
("ICH_LR9_EL2", A::ICH_LR9_EL2, 0xe669),
("ICH_LR10_EL2", A::ICH_LR10_EL2, 0xe66a),
("ICH_LR11_EL2", A::ICH_LR11_EL2, 0xe66b),
("ICH_LR12_EL2", A::ICH_LR12_EL2, 0xe66c),
("ICH_LR13_EL2", A::ICH_LR13_EL2, 0xe66d),
("ICH_LR14_EL2", A::ICH_LR14_EL2, 0xe66e),
("ICH_LR15_EL2", A::ICH_LR15_EL2, 0xe66f),
("CONTEXTIDR_EL2", A::CONTEXTIDR_EL2, 0xe681),
("TPIDR_EL2", A::TPIDR_EL2, 0xe682),
("SCXTNUM_EL2", A::SCXTNUM_EL2, 0xe687),
("AMEVCNTVOFF00_EL2", A::AMEVCNTVOFF00_EL2, 0xe6c0),
("AMEVCNTVOFF01_EL2", A::AMEVCNTVOFF01_EL2, 0xe6c1),
("AMEVCNTVOFF02_EL2", A::AMEVCNTVOFF02_EL2, 0xe6c2),
("AMEVCNTVOFF03_EL2", A::AMEVCNTVOFF03_EL2, 0xe6c3),
("AMEVCNTVOFF04_EL2", A::AMEVCNTVOFF04_EL2, 0xe6c4),
("AMEVCNTVOFF05_EL2", A::AMEVCNTVOFF05_EL2, 0xe6c5),
("AMEVCNTVOFF06_EL2", A::AMEVCNTVOFF06_EL2, 0xe6c6),
("AMEVCNTVOFF07_EL2", A::AMEVCNTVOFF07_EL2, 0xe6c7),
("AMEVCNTVOFF08_EL2", A::AMEVCNTVOFF08_EL2, 0xe6c8),
("AMEVCNTVOFF09_EL2", A::AMEVCNTVOFF09_EL2, 0xe6c9),
("AMEVCNTVOFF010_EL2", A::AMEVCNTVOFF010_EL2, 0xe6ca),
("AMEVCNTVOFF011_EL2", A::AMEVCNTVOFF011_EL2, 0xe6cb),
("AMEVCNTVOFF012_EL2", A::AMEVCNTVOFF012_EL2, 0xe6cc),
("AMEVCNTVOFF013_EL2", A::AMEVCNTVOFF013_EL2, 0xe6cd),
("AMEVCNTVOFF014_EL2", A::AMEVCNTVOFF014_EL2, 0xe6ce),
("AMEVCNTVOFF015_EL2", A::AMEVCNTVOFF015_EL2, 0xe6cf),
("AMEVCNTVOFF10_EL2", A::AMEVCNTVOFF10_EL2, 0xe6d0),
("AMEVCNTVOFF11_EL2", A::AMEVCNTVOFF11_EL2, 0xe6d1),
("AMEVCNTVOFF12_EL2", A::AMEVCNTVOFF12_EL2, 0xe6d2),
("AMEVCNTVOFF13_EL2", A::AMEVCNTVOFF13_EL2, 0xe6d3),
("AMEVCNTVOFF14_EL2", A::AMEVCNTVOFF14_EL2, 0xe6d4),
("AMEVCNTVOFF15_EL2", A::AMEVCNTVOFF15_EL2, 0xe6d5),
("AMEVCNTVOFF16_EL2", A::AMEVCNTVOFF16_EL2, 0xe6d6),
("AMEVCNTVOFF17_EL2", A::AMEVCNTVOFF17_EL2, 0xe6d7),
("AMEVCNTVOFF18_EL2", A::AMEVCNTVOFF18_EL2, 0xe6d8),
("AMEVCNTVOFF19_EL2", A::AMEVCNTVOFF19_EL2, 0xe6d9),
("AMEVCNTVOFF110_EL2", A::AMEVCNTVOFF110_EL2, 0xe6da),
("AMEVCNTVOFF111_EL2", A::AMEVCNTVOFF111_EL2, 0xe6db),
("AMEVCNTVOFF112_EL2", A::AMEVCNTVOFF112_EL2, 0xe6dc),
("AMEVCNTVOFF113_EL2", A::AMEVCNTVOFF113_EL2, 0xe6dd),
("AMEVCNTVOFF114_EL2", A::AMEVCNTVOFF114_EL2, 0xe6de),
("AMEVCNTVOFF115_EL2", A::AMEVCNTVOFF115_EL2, 0xe6df),
("CNTVOFF_EL2", A::CNTVOFF_EL2, 0xe703),
("CNTPOFF_EL2", A::CNTPOFF_EL2, 0xe706),
("CNTHCTL_EL2", A::CNTHCTL_EL2, 0xe708),
("CNTHP_TVAL_EL2", A::CNTHP_TVAL_EL2, 0xe710),
("CNTHP_CTL_EL2", A::CNTHP_CTL_EL2, 0xe711),
("CNTHP_CVAL_EL2", A::CNTHP_CVAL_EL2, 0xe712),
("CNTHV_TVAL_EL2", A::CNTHV_TVAL_EL2, 0xe718),
("CNTHV_CTL_EL2", A::CNTHV_CTL_EL2, 0xe719),
("CNTHV_CVAL_EL2", A::CNTHV_CVAL_EL2, 0xe71a),
("CNTHVS_TVAL_EL2", A::CNTHVS_TVAL_EL2, 0xe720),
("CNTHVS_CTL_EL2", A::CNTHVS_CTL_EL2, 0xe721),
("CNTHVS_CVAL_EL2", A::CNTHVS_CVAL_EL2, 0xe722),
("CNTHPS_TVAL_EL2", A::CNTHPS_TVAL_EL2, 0xe728),
("CNTHPS_CTL_EL2", A::CNTHPS_CTL_EL2, 0xe729),
("CNTHPS_CVAL_EL2", A::CNTHPS_CVAL_EL2, 0xe72a),
("SCTLR_EL3", A::SCTLR_EL3, 0xf080),
("ACTLR_EL3", A::ACTLR_EL3, 0xf081),
("SCR_EL3", A::SCR_EL3, 0xf088),
("SDER32_EL3", A::SDER32_EL3, 0xf089),
("CPTR_EL3", A::CPTR_EL3, 0xf08a),
("ZCR_EL3", A::ZCR_EL3, 0xf090),
("SMCR_EL3", A::SMCR_EL3, 0xf096),
("MDCR_EL3", A::MDCR_EL3, 0xf099),
("TTBR0_EL3", A::TTBR0_EL3, 0xf100),
("TCR_EL3", A::TCR_EL3, 0xf102),
("GPTBR_EL3", A::GPTBR_EL3, 0xf10c),
("GPCCR_EL3", A::GPCCR_EL3, 0xf10e),
("SPSR_EL3", A::SPSR_EL3, 0xf200),
("ELR_EL3", A::ELR_EL3, 0xf201),
("SP_EL2", A::SP_EL2, 0xf208),
("AFSR0_EL3", A::AFSR0_EL3, 0xf288),
("AFSR1_EL3", A::AFSR1_EL3, 0xf289),
("ESR_EL3", A::ESR_EL3, 0xf290),
("TFSR_EL3", A::TFSR_EL3, 0xf2b0),
("FAR_EL3", A::FAR_EL3, 0xf300),
("MFAR_EL3", A::MFAR_EL3, 0xf305),
("MAIR_EL3", A::MAIR_EL3, 0xf510),
("AMAIR_EL3", A::AMAIR_EL3, 0xf518),
("MPAM3_EL3", A::MPAM3_EL3, 0xf528),
("VBAR_EL3", A::VBAR_EL3, 0xf600),
("RVBAR_EL3", A::RVBAR_EL3, 0xf601),
("RMR_EL3", A::RMR_EL3, 0xf602),
("ICC_CTLR_EL3", A::ICC_CTLR_EL3, 0xf664),
("ICC_SRE_EL3", A::ICC_SRE_EL3, 0xf665),
("ICC_IGRPEN1_EL3", A::ICC_IGRPEN1_EL3, 0xf667),
("TPIDR_EL3", A::TPIDR_EL3, 0xf682),
("SCXTNUM_EL3", A::SCXTNUM_EL3, 0xf687),
("CNTPS_TVAL_EL1", A::CNTPS_TVAL_EL1, 0xff10),
("CNTPS_CTL_EL1", A::CNTPS_CTL_EL1, 0xff11),
("CNTPS_CVAL_EL1", A::CNTPS_CVAL_EL1, 0xff12),
("OSDTRRX_EL1", A::OSDTRRX_EL1, 0x8002),
("DBGBVR0_EL1", A::DBGBVR0_EL1, 0x8004),
("DBGBCR0_EL1", A::DBGBCR0_EL1, 0x8005),
("DBGWVR0_EL1", A::DBGWVR0_EL1, 0x8006),
("DBGWCR0_EL1", A::DBGWCR0_EL1, 0x8007),
("DBGBVR1_EL1", A::DBGBVR1_EL1, 0x800c),
("DBGBCR1_EL1", A::DBGBCR1_EL1, 0x800d),
("DBGWVR1_EL1", A::DBGWVR1_EL1, 0x800e),
("DBGWCR1_EL1", A::DBGWCR1_EL1, 0x800f),
("MDCCINT_EL1", A::MDCCINT_EL1, 0x8010),
("MDSCR_EL1", A::MDSCR_EL1, 0x8012),
("DBGBVR2_EL1", A::DBGBVR2_EL1, 0x8014),
("DBGBCR2_EL1", A::DBGBCR2_EL1, 0x8015),
("DBGWVR2_EL1", A::DBGWVR2_EL1, 0x8016),
("DBGWCR2_EL1", A::DBGWCR2_EL1, 0x8017),
("OSDTRTX_EL1", A::OSDTRTX_EL1, 0x801a),
("DBGBVR3_EL1", A::DBGBVR3_EL1, 0x801c),
("DBGBCR3_EL1", A::DBGBCR3_EL1, 0x801d),
("DBGWVR3_EL1", A::DBGWVR3_EL1, 0x801e),
("DBGWCR3_EL1", A::DBGWCR3_EL1, 0x801f),
("DBGBVR4_EL1", A::DBGBVR4_EL1, 0x8024),
("DBGBCR4_EL1", A::DBGBCR4_EL1, 0x8025),
("DBGWVR4_EL1", A::DBGWVR4_EL1, 0x8026),
("DBGWCR4_EL1", A::DBGWCR4_EL1, 0x8027),
("DBGBVR5_EL1", A::DBGBVR5_EL1, 0x802c),
("DBGBCR5_EL1", A::DBGBCR5_EL1, 0x802d),
("DBGWVR5_EL1", A::DBGWVR5_EL1, 0x802e),
("DBGWCR5_EL1", A::DBGWCR5_EL1, 0x802f),
("OSECCR_EL1", A::OSECCR_EL1, 0x8032),
("DBGBVR6_EL1", A::DBGBVR6_EL1, 0x8034),
("DBGBCR6_EL1", A::DBGBCR6_EL1, 0x8035),
("DBGWVR6_EL1", A::DBGWVR6_EL1, 0x8036),
("DBGWCR6_EL1", A::DBGWCR6_EL1, 0x8037),
("DBGBVR7_EL1", A::DBGBVR7_EL1, 0x803c),
("DBGBCR7_EL1", A::DBGBCR7_EL1, 0x803d),
("DBGWVR7_EL1", A::DBGWVR7_EL1, 0x803e),
("DBGWCR7_EL1", A::DBGWCR7_EL1, 0x803f),
("DBGBVR8_EL1", A::DBGBVR8_EL1, 0x8044),
("DBGBCR8_EL1", A::DBGBCR8_EL1, 0x8045),
("DBGWVR8_EL1", A::DBGWVR8_EL1, 0x8046),
("DBGWCR8_EL1", A::DBGWCR8_EL1, 0x8047),
("DBGBVR9_EL1", A::DBGBVR9_EL1, 0x804c),
("DBGBCR9_EL1", A::DBGBCR9_EL1, 0x804d),
("DBGWVR9_EL1", A::DBGWVR9_EL1, 0x804e),
("DBGWCR9_EL1", A::DBGWCR9_EL1, 0x804f),
("DBGBVR10_EL1", A::DBGBVR10_EL1, 0x8054),
("DBGBCR10_EL1", A::DBGBCR10_EL1, 0x8055),
("DBGWVR10_EL1", A::DBGWVR10_EL1, 0x8056),
("DBGWCR10_EL1", A::DBGWCR10_EL1, 0x8057),
("DBGBVR11_EL1", A::DBGBVR11_EL1, 0x805c),
("DBGBCR11_EL1", A::DBGBCR11_EL1, 0x805d),
("DBGWVR11_EL1", A::DBGWVR11_EL1, 0x805e),
("DBGWCR11_EL1", A::DBGWCR11_EL1, 0x805f),
("DBGBVR12_EL1", A::DBGBVR12_EL1, 0x8064),
("DBGBCR12_EL1", A::DBGBCR12_EL1, 0x8065),
("DBGWVR12_EL1", A::DBGWVR12_EL1, 0x8066),
("DBGWCR12_EL1", A::DBGWCR12_EL1, 0x8067),
("DBGBVR13_EL1", A::DBGBVR13_EL1, 0x806c),
("DBGBCR13_EL1", A::DBGBCR13_EL1, 0x806d),
("DBGWVR13_EL1", A::DBGWVR13_EL1, 0x806e),
("DBGWCR13_EL1", A::DBGWCR13_EL1, 0x806f),
("DBGBVR14_EL1", A::DBGBVR14_EL1, 0x8074),
("DBGBCR14_EL1", A::DBGBCR14_EL1, 0x8075),
("DBGWVR14_EL1", A::DBGWVR14_EL1, 0x8076),
("DBGWCR14_EL1", A::DBGWCR14_EL1, 0x8077),
("DBGBVR15_EL1", A::DBGBVR15_EL1, 0x807c),
("DBGBCR15_EL1", A::DBGBCR15_EL1, 0x807d),
("DBGWVR15_EL1", A::DBGWVR15_EL1, 0x807e),
("DBGWCR15_EL1", A::DBGWCR15_EL1, 0x807f),
("MDRAR_EL1", A::MDRAR_EL1, 0x8080),
("OSLAR_EL1", A::OSLAR_EL1, 0x8084),
("OSLSR_EL1", A::OSLSR_EL1, 0x808c),
("OSDLR_EL1", A::OSDLR_EL1, 0x809c),
("DBGPRCR_EL1", A::DBGPRCR_EL1, 0x80a4),
("DBGCLAIMSET_EL1", A::DBGCLAIMSET_EL1, 0x83c6),
("DBGCLAIMCLR_EL1", A::DBGCLAIMCLR_EL1, 0x83ce),
("DBGAUTHSTATUS_EL1", A::DBGAUTHSTATUS_EL1, 0x83f6),
("TRCTRACEIDR", A::TRCTRACEIDR, 0x8801),
("TRCVICTLR", A::TRCVICTLR, 0x8802),
("TRCSEQEVR0", A::TRCSEQEVR0, 0x8804),
("TRCCNTRLDVR0", A::TRCCNTRLDVR0, 0x8805),
("TRCIDR8", A::TRCIDR8, 0x8806),
("TRCIMSPEC0", A::TRCIMSPEC0, 0x8807),
("TRCPRGCTLR", A::TRCPRGCTLR, 0x8808),
("TRCQCTLR", A::TRCQCTLR, 0x8809),
("TRCVIIECTLR", A::TRCVIIECTLR, 0x880a),
("TRCSEQEVR1", A::TRCSEQEVR1, 0x880c),
("TRCCNTRLDVR1", A::TRCCNTRLDVR1, 0x880d),
("TRCIDR9", A::TRCIDR9, 0x880e),
("TRCIMSPEC1", A::TRCIMSPEC1, 0x880f),
("TRCVISSCTLR", A::TRCVISSCTLR, 0x8812),
("TRCSEQEVR2", A::TRCSEQEVR2, 0x8814),
("TRCCNTRLDVR2", A::TRCCNTRLDVR2, 0x8815),
("TRCIDR10", A::TRCIDR10, 0x8816),
("TRCIMSPEC2", A::TRCIMSPEC2, 0x8817),
("TRCSTATR", A::TRCSTATR, 0x8818),
("TRCVIPCSSCTLR", A::TRCVIPCSSCTLR, 0x881a),
("TRCCNTRLDVR3", A::TRCCNTRLDVR3, 0x881d),
("TRCIDR11", A::TRCIDR11, 0x881e),
("TRCIMSPEC3", A::TRCIMSPEC3, 0x881f),
("TRCCONFIGR", A::TRCCONFIGR, 0x8820),
("TRCCNTCTLR0", A::TRCCNTCTLR0, 0x8825),
("TRCIDR12", A::TRCIDR12, 0x8826),
("TRCIMSPEC4", A::TRCIMSPEC4, 0x8827),
("TRCCNTCTLR1", A::TRCCNTCTLR1, 0x882d),
("TRCIDR13", A::TRCIDR13, 0x882e),
("TRCIMSPEC5", A::TRCIMSPEC5, 0x882f),
("TRCAUXCTLR", A::TRCAUXCTLR, 0x8830),
("TRCSEQRSTEVR", A::TRCSEQRSTEVR, 0x8834),
("TRCCNTCTLR2", A::TRCCNTCTLR2, 0x8835),
("TRCIMSPEC6", A::TRCIMSPEC6, 0x8837),
("TRCSEQSTR", A::TRCSEQSTR, 0x883c),
("TRCCNTCTLR3", A::TRCCNTCTLR3, 0x883d),
("TRCIMSPEC7", A::TRCIMSPEC7, 0x883f),
("TRCEVENTCTL0R", A::TRCEVENTCTL0R, 0x8840),
("TRCEXTINSELR0", A::TRCEXTINSELR0, 0x8844),
("TRCCNTVR0", A::TRCCNTVR0, 0x8845),
("TRCIDR0", A::TRCIDR0, 0x8847),
("TRCEVENTCTL1R", A::TRCEVENTCTL1R, 0x8848),
("TRCEXTINSELR1", A::TRCEXTINSELR1, 0x884c),
("TRCCNTVR1", A::TRCCNTVR1, 0x884d),
("TRCIDR1", A::TRCIDR1, 0x884f),
("TRCRSR", A::TRCRSR, 0x8850),
("TRCEXTINSELR2", A::TRCEXTINSELR2, 0x8854),
("TRCCNTVR2", A::TRCCNTVR2, 0x8855),
("TRCIDR2", A::TRCIDR2, 0x8857),
("TRCSTALLCTLR", A::TRCSTALLCTLR, 0x8858),
("TRCEXTINSELR3", A::TRCEXTINSELR3, 0x885c),
("TRCCNTVR3", A::TRCCNTVR3, 0x885d),
("TRCIDR3", A::TRCIDR3, 0x885f),
("TRCTSCTLR", A::TRCTSCTLR, 0x8860),
("TRCIDR4", A::TRCIDR4, 0x8867),
("TRCSYNCPR", A::TRCSYNCPR, 0x8868),
("TRCIDR5", A::TRCIDR5, 0x886f),
("TRCCCCTLR", A::TRCCCCTLR, 0x8870),
("TRCIDR6", A::TRCIDR6, 0x8877),
("TRCBBCTLR", A::TRCBBCTLR, 0x8878),
("TRCIDR7", A::TRCIDR7, 0x887f),
("TRCRSCTLR16", A::TRCRSCTLR16, 0x8881),
("TRCSSCCR0", A::TRCSSCCR0, 0x8882),
("TRCSSPCICR0", A::TRCSSPCICR0, 0x8883),
("TRCRSCTLR17", A::TRCRSCTLR17, 0x8889),
("TRCSSCCR1", A::TRCSSCCR1, 0x888a),
("TRCSSPCICR1", A::TRCSSPCICR1, 0x888b),
("TRCOSLSR", A::TRCOSLSR, 0x888c),
("TRCRSCTLR2", A::TRCRSCTLR2, 0x8890),
("TRCRSCTLR18", A::TRCRSCTLR18, 0x8891),
("TRCSSCCR2", A::TRCSSCCR2, 0x8892),
("TRCSSPCICR2", A::TRCSSPCICR2, 0x8893),
("TRCRSCTLR3", A::TRCRSCTLR3, 0x8898),
("TRCRSCTLR19", A::TRCRSCTLR19, 0x8899),
("TRCSSCCR3", A::TRCSSCCR3, 0x889a),
("TRCSSPCICR3", A::TRCSSPCICR3, 0x889b),
("TRCRSCTLR4", A::TRCRSCTLR4, 0x88a0),
("TRCRSCTLR20", A::TRCRSCTLR20, 0x88a1),
("TRCSSCCR4", A::TRCSSCCR4, 0x88a2),
("TRCSSPCICR4", A::TRCSSPCICR4, 0x88a3),
("TRCRSCTLR5", A::TRCRSCTLR5, 0x88a8),
("TRCRSCTLR21", A::TRCRSCTLR21, 0x88a9),
("TRCSSCCR5", A::TRCSSCCR5, 0x88aa),
("TRCSSPCICR5", A::TRCSSPCICR5, 0x88ab),
("TRCRSCTLR6", A::TRCRSCTLR6, 0x88b0),
("TRCRSCTLR22", A::TRCRSCTLR22, 0x88b1),
("TRCSSCCR6", A::TRCSSCCR6, 0x88b2),
("TRCSSPCICR6", A::TRCSSPCICR6, 0x88b3),
("TRCRSCTLR7", A::TRCRSCTLR7, 0x88b8),
("TRCRSCTLR23", A::TRCRSCTLR23, 0x88b9),
("TRCSSCCR7", A::TRCSSCCR7, 0x88ba),
("TRCSSPCICR7", A::TRCSSPCICR7, 0x88bb),
("TRCRSCTLR8", A::TRCRSCTLR8, 0x88c0),
("TRCRSCTLR24", A::TRCRSCTLR24, 0x88c1),
("TRCSSCSR0", A::TRCSSCSR0, 0x88c2),
("TRCRSCTLR9", A::TRCRSCTLR9, 0x88c8),
("TRCRSCTLR25", A::TRCRSCTLR25, 0x88c9),
("TRCSSCSR1", A::TRCSSCSR1, 0x88ca),
("TRCRSCTLR10", A::TRCRSCTLR10, 0x88d0),
("TRCRSCTLR26", A::TRCRSCTLR26, 0x88d1),
("TRCSSCSR2", A::TRCSSCSR2, 0x88d2),
("TRCRSCTLR11", A::TRCRSCTLR11, 0x88d8),
("TRCRSCTLR27", A::TRCRSCTLR27, 0x88d9),
("TRCSSCSR3", A::TRCSSCSR3, 0x88da),
("TRCRSCTLR12", A::TRCRSCTLR12, 0x88e0),
("TRCRSCTLR28", A::TRCRSCTLR28, 0x88e1),
("TRCSSCSR4", A::TRCSSCSR4, 0x88e2),
("TRCRSCTLR13", A::TRCRSCTLR13, 0x88e8),
("TRCRSCTLR29", A::TRCRSCTLR29, 0x88e9),
("TRCSSCSR5", A::TRCSSCSR5, 0x88ea),
("TRCRSCTLR14", A::TRCRSCTLR14, 0x88f0),
("TRCRSCTLR30", A::TRCRSCTLR30, 0x88f1),
("TRCSSCSR6", A::TRCSSCSR6, 0x88f2),
("TRCRSCTLR15", A::TRCRSCTLR15, 0x88f8),
("TRCRSCTLR31", A::TRCRSCTLR31, 0x88f9),
("TRCSSCSR7", A::TRCSSCSR7, 0x88fa),
("TRCACVR0", A::TRCACVR0, 0x8900),
("TRCACVR8", A::TRCACVR8, 0x8901),
("TRCACATR0", A::TRCACATR0, 0x8902),
("TRCACATR8", A::TRCACATR8, 0x8903),
("TRCACVR1", A::TRCACVR1, 0x8910),
("TRCACVR9", A::TRCACVR9, 0x8911),
("TRCACATR1", A::TRCACATR1, 0x8912),
("TRCACATR9", A::TRCACATR9, 0x8913),
("TRCACVR2", A::TRCACVR2, 0x8920),
("TRCACVR10", A::TRCACVR10, 0x8921),
("TRCACATR2", A::TRCACATR2, 0x8922),
("TRCACATR10", A::TRCACATR10, 0x8923),
("TRCACVR3", A::TRCACVR3, 0x8930),
("TRCACVR11", A::TRCACVR11, 0x8931),
("TRCACATR3", A::TRCACATR3, 0x8932),
("TRCACATR11", A::TRCACATR11, 0x8933),
("TRCACVR4", A::TRCACVR4, 0x8940),
("TRCACVR12", A::TRCACVR12, 0x8941),
("TRCACATR4", A::TRCACATR4, 0x8942),
("TRCACATR12", A::TRCACATR12, 0x8943),
("TRCACVR5", A::TRCACVR5, 0x8950),
("TRCACVR13", A::TRCACVR13, 0x8951),
("TRCACATR5", A::TRCACATR5, 0x8952),
("TRCACATR13", A::TRCACATR13, 0x8953),
("TRCACVR6", A::TRCACVR6, 0x8960),
("TRCACVR14", A::TRCACVR14, 0x8961),
("TRCACATR6", A::TRCACATR6, 0x8962),
("TRCACATR14", A::TRCACATR14, 0x8963),
("TRCACVR7", A::TRCACVR7, 0x8970),
("TRCACVR15", A::TRCACVR15, 0x8971),
("TRCACATR7", A::TRCACATR7, 0x8972),
("TRCACATR15", A::TRCACATR15, 0x8973),
("TRCCIDCVR0", A::TRCCIDCVR0, 0x8980),
("TRCVMIDCVR0", A::TRCVMIDCVR0, 0x8981),
("TRCCIDCCTLR0", A::TRCCIDCCTLR0, 0x8982),
("TRCCIDCCTLR1", A::TRCCIDCCTLR1, 0x898a),
("TRCCIDCVR1", A::TRCCIDCVR1, 0x8990),
("TRCVMIDCVR1", A::TRCVMIDCVR1, 0x8991),
("TRCVMIDCCTLR0", A::TRCVMIDCCTLR0, 0x8992),
("TRCVMIDCCTLR1", A::TRCVMIDCCTLR1, 0x899a),
("TRCCIDCVR2", A::TRCCIDCVR2, 0x89a0),
("TRCVMIDCVR2", A::TRCVMIDCVR2, 0x89a1),
("TRCCIDCVR3", A::TRCCIDCVR3, 0x89b0),
("TRCVMIDCVR3", A::TRCVMIDCVR3, 0x89b1),
("TRCCIDCVR4", A::TRCCIDCVR4, 0x89c0),
("TRCVMIDCVR4", A::TRCVMIDCVR4, 0x89c1),
("TRCCIDCVR5", A::TRCCIDCVR5, 0x89d0),
("TRCVMIDCVR5", A::TRCVMIDCVR5, 0x89d1),
("TRCCIDCVR6", A::TRCCIDCVR6, 0x89e0),
("TRCVMIDCVR6", A::TRCVMIDCVR6, 0x89e1),
("TRCCIDCVR7", A::TRCCIDCVR7, 0x89f0),
("TRCVMIDCVR7", A::TRCVMIDCVR7, 0x89f1),
("TRCDEVID", A::TRCDEVID, 0x8b97),
("TRCCLAIMSET", A::TRCCLAIMSET, 0x8bc6),
("TRCCLAIMCLR", A::TRCCLAIMCLR, 0x8bce),
("TRCAUTHSTATUS", A::TRCAUTHSTATUS, 0x8bf6),
("TRCDEVARCH", A::TRCDEVARCH, 0x8bfe),
("BRBINF0_EL1", A::BRBINF0_EL1, 0x8c00),
("BRBSRC0_EL1", A::BRBSRC0_EL1, 0x8c01),
("BRBTGT0_EL1", A::BRBTGT0_EL1, 0x8c02),
("BRBINF16_EL1", A::BRBINF16_EL1, 0x8c04),
("BRBSRC16_EL1", A::BRBSRC16_EL1, 0x8c05),
("BRBTGT16_EL1", A::BRBTGT16_EL1, 0x8c06),
("BRBINF1_EL1", A::BRBINF1_EL1, 0x8c08),
("BRBSRC1_EL1", A::BRBSRC1_EL1, 0x8c09),
("BRBTGT1_EL1", A::BRBTGT1_EL1, 0x8c0a),
("BRBINF17_EL1", A::BRBINF17_EL1, 0x8c0c),
("BRBSRC17_EL1", A::BRBSRC17_EL1, 0x8c0d),
("BRBTGT17_EL1", A::BRBTGT17_EL1, 0x8c0e),
("BRBINF2_EL1", A::BRBINF2_EL1, 0x8c10),
("BRBSRC2_EL1", A::BRBSRC2_EL1, 0x8c11),
("BRBTGT2_EL1", A::BRBTGT2_EL1, 0x8c12),
("BRBINF18_EL1", A::BRBINF18_EL1, 0x8c14),
("BRBSRC18_EL1", A::BRBSRC18_EL1, 0x8c15),
("BRBTGT18_EL1", A::BRBTGT18_EL1, 0x8c16),
("BRBINF3_EL1", A::BRBINF3_EL1, 0x8c18),
("BRBSRC3_EL1", A::BRBSRC3_EL1, 0x8c19),
("BRBTGT3_EL1", A::BRBTGT3_EL1, 0x8c1a),
("BRBINF19_EL1", A::BRBINF19_EL1, 0x8c1c),
("BRBSRC19_EL1", A::BRBSRC19_EL1, 0x8c1d),
("BRBTGT19_EL1", A::BRBTGT19_EL1, 0x8c1e),
("BRBINF4_EL1", A::BRBINF4_EL1, 0x8c20),
("BRBSRC4_EL1", A::BRBSRC4_EL1, 0x8c21),
("BRBTGT4_EL1", A::BRBTGT4_EL1, 0x8c22),
("BRBINF20_EL1", A::BRBINF20_EL1, 0x8c24),
("BRBSRC20_EL1", A::BRBSRC20_EL1, 0x8c25),
("BRBTGT20_EL1", A::BRBTGT20_EL1, 0x8c26),
("BRBINF5_EL1", A::BRBINF5_EL1, 0x8c28),
("BRBSRC5_EL1", A::BRBSRC5_EL1, 0x8c29),
("BRBTGT5_EL1", A::BRBTGT5_EL1, 0x8c2a),
("BRBINF21_EL1", A::BRBINF21_EL1, 0x8c2c),
("BRBSRC21_EL1", A::BRBSRC21_EL1, 0x8c2d),
("BRBTGT21_EL1", A::BRBTGT21_EL1, 0x8c2e),
("BRBINF6_EL1", A::BRBINF6_EL1, 0x8c30),
("BRBSRC6_EL1", A::BRBSRC6_EL1, 0x8c31),
("BRBTGT6_EL1", A::BRBTGT6_EL1, 0x8c32),
("BRBINF22_EL1", A::BRBINF22_EL1, 0x8c34),
("BRBSRC22_EL1", A::BRBSRC22_EL1, 0x8c35),
("BRBTGT22_EL1", A::BRBTGT22_EL1, 0x8c36),
("BRBINF7_EL1", A::BRBINF7_EL1, 0x8c38),
("BRBSRC7_EL1", A::BRBSRC7_EL1, 0x8c39),
("BRBTGT7_EL1", A::BRBTGT7_EL1, 0x8c3a),
("BRBINF23_EL1", A::BRBINF23_EL1, 0x8c3c),
("BRBSRC23_EL1", A::BRBSRC23_EL1, 0x8c3d),
("BRBTGT23_EL1", A::BRBTGT23_EL1, 0x8c3e),
("BRBINF8_EL1", A::BRBINF8_EL1, 0x8c40),
("BRBSRC8_EL1", A::BRBSRC8_EL1, 0x8c41),
("BRBTGT8_EL1", A::BRBTGT8_EL1, 0x8c42),
("BRBINF24_EL1", A::BRBINF24_EL1, 0x8c44),
("BRBSRC24_EL1", A::BRBSRC24_EL1, 0x8c45),
("BRBTGT24_EL1", A::BRBTGT24_EL1, 0x8c46),
("BRBINF9_EL1", A::BRBINF9_EL1, 0x8c48),
("BRBSRC9_EL1", A::BRBSRC9_EL1, 0x8c49),
("BRBTGT9_EL1", A::BRBTGT9_EL1, 0x8c4a),
("BRBINF25_EL1", A::BRBINF25_EL1, 0x8c4c),
("BRBSRC25_EL1", A::BRBSRC25_EL1, 0x8c4d),
("BRBTGT25_EL1", A::BRBTGT25_EL1, 0x8c4e),
("BRBINF10_EL1", A::BRBINF10_EL1, 0x8c50),
("BRBSRC10_EL1", A::BRBSRC10_EL1, 0x8c51),
("BRBTGT10_EL1", A::BRBTGT10_EL1, 0x8c52),
("BRBINF26_EL1", A::BRBINF26_EL1, 0x8c54),
("BRBSRC26_EL1", A::BRBSRC26_EL1, 0x8c55),
("BRBTGT26_EL1", A::BRBTGT26_EL1, 0x8c56),
("BRBINF11_EL1", A::BRBINF11_EL1, 0x8c58),
("BRBSRC11_EL1", A::BRBSRC11_EL1, 0x8c59),
("BRBTGT11_EL1", A::BRBTGT11_EL1, 0x8c5a),
("BRBINF27_EL1", A::BRBINF27_EL1, 0x8c5c),
("BRBSRC27_EL1", A::BRBSRC27_EL1, 0x8c5d),
("BRBTGT27_EL1", A::BRBTGT27_EL1, 0x8c5e),
("BRBINF12_EL1", A::BRBINF12_EL1, 0x8c60),
("BRBSRC12_EL1", A::BRBSRC12_EL1, 0x8c61),
("BRBTGT12_EL1", A::BRBTGT12_EL1, 0x8c62),
("BRBINF28_EL1", A::BRBINF28_EL1, 0x8c64),
("BRBSRC28_EL1", A::BRBSRC28_EL1, 0x8c65),
("BRBTGT28_EL1", A::BRBTGT28_EL1, 0x8c66),
("BRBINF13_EL1", A::BRBINF13_EL1, 0x8c68),
("BRBSRC13_EL1", A::BRBSRC13_EL1, 0x8c69),
("BRBTGT13_EL1", A::BRBTGT13_EL1, 0x8c6a),
("BRBINF29_EL1", A::BRBINF29_EL1, 0x8c6c),
("BRBSRC29_EL1", A::BRBSRC29_EL1, 0x8c6d),
("BRBTGT29_EL1", A::BRBTGT29_EL1, 0x8c6e),
("BRBINF14_EL1", A::BRBINF14_EL1, 0x8c70),
("BRBSRC14_EL1", A::BRBSRC14_EL1, 0x8c71),
("BRBTGT14_EL1", A::BRBTGT14_EL1, 0x8c72),
("BRBINF30_EL1", A::BRBINF30_EL1, 0x8c74),
("BRBSRC30_EL1", A::BRBSRC30_EL1, 0x8c75),
("BRBTGT30_EL1", A::BRBTGT30_EL1, 0x8c76),
("BRBINF15_EL1", A::BRBINF15_EL1, 0x8c78),
("BRBSRC15_EL1", A::BRBSRC15_EL1, 0x8c79),
("BRBTGT15_EL1", A::BRBTGT15_EL1, 0x8c7a),
("BRBINF31_EL1", A::BRBINF31_EL1, 0x8c7c),
("BRBSRC31_EL1", A::BRBSRC31_EL1, 0x8c7d),
("BRBTGT31_EL1", A::BRBTGT31_EL1, 0x8c7e),
("BRBCR_EL1", A::BRBCR_EL1, 0x8c80),
("BRBCR_EL2", A::BRBCR_EL2, 0xa480),
("BRBFCR_EL1", A::BRBFCR_EL1, 0x8c81),
("BRBTS_EL1", A::BRBTS_EL1, 0x8c82),
("BRBINFINJ_EL1", A::BRBINFINJ_EL1, 0x8c88),
("BRBSRCINJ_EL1", A::BRBSRCINJ_EL1, 0x8c89),
("BRBTGTINJ_EL1", A::BRBTGTINJ_EL1, 0x8c8a),
("BRBIDR0_EL1", A::BRBIDR0_EL1, 0x8c90),
("MDCCSR_EL0", A::MDCCSR_EL0, 0x9808),
("DBGDTR_EL0", A::DBGDTR_EL0, 0x9820),
("DBGDTRRX_EL0", A::DBGDTRRX_EL0, 0x9828),
("DBGDTRTX_EL0", A::DBGDTRTX_EL0, 0x9828),
("DBGVCR32_EL2", A::DBGVCR32_EL2, 0xa038),
];
