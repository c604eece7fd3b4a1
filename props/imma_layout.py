"""Layout of IMMA1 records: attachment -> "NAME:width:scale:kind" in disc order (i integer, c text, b base 36)."""
LAYOUT = {
    0: """YR:4:1.0:i MO:2:1.0:i DY:2:1.0:i HR:4:0.01:i LAT:5:0.01:i LON:6:0.01:i IM:2:1.0:i ATTC:1:1.0:b TI:1:1.0:i LI:1:1.0:i DS:1:1.0:i
        VS:1:1.0:i NID:2:1.0:i II:2:1.0:i ID:9:-:c C1:2:-:c DI:1:1.0:i D:3:1.0:i WI:1:1.0:i W:3:0.1:i VI:1:1.0:i VV:2:1.0:i WW:2:1.0:i
        W1:1:1.0:i SLP:5:0.1:i A:1:1.0:i PPP:3:0.1:i IT:1:1.0:i AT:4:0.1:i WBTI:1:1.0:i WBT:4:0.1:i DPTI:1:1.0:i DPT:4:0.1:i SI:2:1.0:i
        SST:4:0.1:i N:1:1.0:i NH:1:1.0:i CL:1:1.0:b HI:1:1.0:i H:1:1.0:b CM:1:1.0:b CH:1:1.0:b WD:2:1.0:i WP:2:1.0:i WH:2:1.0:i SD:2:1.0:i
        SP:2:1.0:i SH:2:1.0:i""",  # 108 columns
    1: """BSI:1:1.0:i B10:3:1.0:i B1:2:1.0:i DCK:3:1.0:i SID:3:1.0:i PT:2:1.0:i DUPS:2:1.0:i DUPC:1:1.0:i TC:1:1.0:i PB:1:1.0:i WX:1:1.0:i
        SX:1:1.0:i C2:2:1.0:i SQZ:1:1.0:b SQA:1:1.0:b AQZ:1:1.0:b AQA:1:1.0:b UQZ:1:1.0:b UQA:1:1.0:b VQZ:1:1.0:b VQA:1:1.0:b PQZ:1:1.0:b
        PQA:1:1.0:b DQZ:1:1.0:b DQA:1:1.0:b ND:1:1.0:i SF:1:1.0:b AF:1:1.0:b UF:1:1.0:b VF:1:1.0:b PF:1:1.0:b RF:1:1.0:b ZNC:1:1.0:b
        WNC:1:1.0:b BNC:1:1.0:b XNC:1:1.0:b YNC:1:1.0:b PNC:1:1.0:b ANC:1:1.0:b GNC:1:1.0:b DNC:1:1.0:b SNC:1:1.0:b CNC:1:1.0:b
        ENC:1:1.0:b FNC:1:1.0:b TNC:1:1.0:b QCE:2:1.0:i LZ:1:1.0:i QCZ:2:1.0:i""",  # 61 columns
    2: """OS:1:1.0:i OP:1:1.0:i FM:2:1.0:i IX:1:1.0:i W2:1:1.0:i SGN:1:1.0:i SGT:1:1.0:b SGH:2:1.0:i WMI:1:1.0:i SD2:2:1.0:i SP2:2:1.0:i
        SH2:2:1.0:i IS:1:1.0:i ES:2:1.0:i RS:1:1.0:i IC1:1:1.0:b IC2:1:1.0:b IC3:1:1.0:b IC4:1:1.0:b IC5:1:1.0:b IR:1:1.0:i RRR:3:1.0:i
        TR:1:1.0:i QCI:1:1.0:i QI1:1:1.0:i QI2:1:1.0:i QI3:1:1.0:i QI4:1:1.0:i QI5:1:1.0:i QI6:1:1.0:i QI7:1:1.0:i QI8:1:1.0:i QI9:1:1.0:i
        QI10:1:1.0:i QI11:1:1.0:i QI12:1:1.0:i QI13:1:1.0:i QI14:1:1.0:i QI15:1:1.0:i QI16:1:1.0:i QI17:1:1.0:i QI18:1:1.0:i QI19:1:1.0:i
        QI20:1:1.0:i QI21:1:1.0:i HDG:3:1.0:i COG:3:1.0:i SOG:2:1.0:i SLL:2:1.0:i SLHH:3:1.0:i RWD:3:1.0:i RWS:3:0.1:i""",  # 72 columns
    3: """CCCC:4:-:c BUID:6:-:c BMP:5:0.1:i BSWU:4:0.1:i SWU:4:0.1:i BSWV:4:0.1:i SWV:4:0.1:i BSAT:4:0.1:i BSRH:3:1.0:i SRH:3:1.0:i
        SIX:1:1.0:i BSST:4:0.1:i MST:1:1.0:i MSH:3:1.0:i BY:4:1.0:i BM:2:1.0:i BD:2:1.0:i BH:2:1.0:i BFL:2:1.0:i""",  # 62 columns
    4: """C1M:2:-:c OPM:2:1.0:i KOV:2:-:c COR:2:-:c TOB:3:-:c TOT:3:-:c EOT:2:-:c LOT:2:-:c TOH:1:-:c EOH:2:-:c SIM:3:-:c LOV:3:1.0:i
        DOS:2:1.0:i HOP:3:1.0:i HOT:3:1.0:i HOB:3:1.0:i HOA:3:1.0:i SMF:5:1.0:i SME:5:1.0:i SMV:2:1.0:i""",  # 53 columns
    5: """OS:1:1.0:i OP:1:1.0:i FM:1:1.0:b IMMV:1:1.0:b IX:1:1.0:i W2:1:1.0:i WMI:1:1.0:i SD2:2:1.0:i SP2:2:1.0:i SH2:2:1.0:i IS:1:1.0:i
        ES:2:1.0:i RS:1:1.0:i IC1:1:1.0:b IC2:1:1.0:b IC3:1:1.0:b IC4:1:1.0:b IC5:1:1.0:b IR:1:1.0:i RRR:3:1.0:i TR:1:1.0:i NU:1:-:c
        QCI:1:1.0:i QI1:1:1.0:i QI2:1:1.0:i QI3:1:1.0:i QI4:1:1.0:i QI5:1:1.0:i QI6:1:1.0:i QI7:1:1.0:i QI8:1:1.0:i QI9:1:1.0:i
        QI10:1:1.0:i QI11:1:1.0:i QI12:1:1.0:i QI13:1:1.0:i QI14:1:1.0:i QI15:1:1.0:i QI16:1:1.0:i QI17:1:1.0:i QI18:1:1.0:i QI19:1:1.0:i
        QI20:1:1.0:i QI21:1:1.0:i HDG:3:1.0:i COG:3:1.0:i SOG:2:1.0:i SLL:2:1.0:i SLHH:3:1.0:i RWD:3:1.0:i RWS:3:0.1:i QI22:1:1.0:i
        QI23:1:1.0:i QI24:1:1.0:i QI25:1:1.0:i QI26:1:1.0:i QI27:1:1.0:i QI28:1:1.0:i QI29:1:1.0:i RH:4:0.1:i RHI:1:1.0:i AWSI:1:1.0:i
        IMONO:7:1.0:i""",  # 90 columns
    6: """CCCC:4:-:c BUID:6:-:c FBSRC:1:1.0:i BMP:5:0.1:i BSWU:4:0.1:i SWU:4:0.1:i BSWV:4:0.1:i SWV:4:0.1:i BSAT:4:0.1:i BSRH:3:1.0:i
        SRH:3:1.0:i BSST:5:0.1:i MST:1:1.0:i MSH:4:1.0:i BY:4:1.0:i BM:2:1.0:i BD:2:1.0:i BH:2:1.0:i BFL:2:1.0:i""",  # 64 columns
    7: """MDS:1:1.0:i C1M:2:-:c OPM:2:1.0:i KOV:2:-:c COR:2:-:c TOB:3:-:c TOT:3:-:c EOT:2:-:c LOT:2:-:c TOH:1:-:c EOH:2:-:c SIM:3:-:c
        LOV:3:1.0:i DOS:2:1.0:i HOP:3:1.0:i HOT:3:1.0:i HOB:3:1.0:i HOA:3:1.0:i SMF:5:1.0:i SME:5:1.0:i SMV:2:1.0:i""",  # 54 columns
    8: """OTV:5:0.001:i OTZ:4:0.01:i OSV:5:0.001:i OSZ:4:0.01:i OOV:4:0.01:i OOZ:4:0.01:i OPV:4:0.01:i OPZ:4:0.01:i OSIV:5:0.01:i
        OSIZ:4:0.01:i ONV:5:0.01:i ONZ:4:0.01:i OPHV:3:0.01:i OPHZ:4:0.01:i OCV:4:0.01:i OCZ:4:0.01:i OAV:3:0.01:i OAZ:4:0.01:i
        OPCV:4:0.1:i OPCZ:4:0.01:i ODV:2:0.1:i ODZ:4:0.01:i PUID:10:-:c""",  # 98 columns
    9: """CCe:1:1.0:b WWe:2:1.0:i Ne:1:1.0:i NHe:1:1.0:i He:1:1.0:i CLe:2:1.0:i CMe:2:1.0:i CHe:1:1.0:i AM:3:0.01:i AH:3:0.01:i UM:1:1.0:i
        UH:1:1.0:i SBI:1:1.0:i SA:4:0.1:i RI:4:0.01:i""",  # 28 columns
    95: """ICNR:2:1:i FNR:2:1:i DPRO:2:1:i DPRP:2:1:i UFR:1:1:i MFGR:7:1:i MFGSR:7:1:i MAR:7:1:i MASR:7:1:i BCR:7:1:i ARCR:4:-:c CDR:8:1:i
        ASIR:1:1:i""",  # 57 columns
    96: """ICNI:2:1.0:i FNI:2:1.0:i JVAD:1:1.0:b VAD:6:1.0:i IVAU1:1:1.0:b JVAU1:1:1.0:b VAU1:6:1.0:i IVAU2:1:1.0:b JVAU2:1:1.0:b
        VAU2:6:1.0:i IVAU3:1:1.0:b JVAU3:1:1.0:b VAU3:6:1.0:i VQC:1:1.0:i ARCI:4:-:c CDR:8:1.0:i ASII:1:1.0:i""",  # 49 columns
    97: """ICNE:2:1.0:i FNE:2:1.0:i CEF:1:1.0:i ERRD:10:-:i ARCE:4:-:c CDE:8:1.0:i ASIE:1:1.0:i""",  # 28 columns
    98: """UID:6:-:c RN1:1:1.0:b RN2:1:1.0:b RN3:1:1.0:b RSA:1:1.0:i IRF:1:1.0:i""",  # 11 columns
    99: """ATTE:1:-:i SUPD:*:-:c""",  # 1 columns
}
