module sse com.finproto.sse.bin.messages BE
message CancelReject
  pbu str 8 space right
  setId i32
  reportIndex i64
  bizId i32
  bizPbu str 8 space right
  clOrdId str 10 space right
  securityId str 12 space right
  origClOrdId str 10 space right
  branchId str 8 space right
  cxlRejReason i32
  tradeDate i32
  transactTime i64
  userInfo str 32 space right
message Confirm
  pbu str 8 space right
  setId i32
  reportIndex i64
  bizId i32
  execType str 1 space right
  bizPbu str 8 space right
  clOrdId str 10 space right
  securityId str 12 space right
  account str 13 space right
  ownerType i8
  side str 1 space right
  price i64
  orderQty i64
  leavesQty i64
  cxlQty i64
  ordType str 1 space right
  timeInForce str 1 space right
  ordStatus str 1 space right
  creditTag str 2 space right
  origClOrdId str 10 space right
  clearingFirm str 8 space right
  branchId str 8 space right
  ordRejReason i32
  ordCnfmId str 16 space right
  origOrdCnfmId str 16 space right
  tradeDate i32
  transactTime i64
  userInfo str 32 space right
message ExecRptEndOfStream
  pbu str 8 space right
  setId i32
  endReportIndex i64
message ExecRptInfo
  platformId i16
  pbu list i16 str 8 space right
  setId list i16 i32
message ExecRptSync
  subExecRptSync list i16 obj ExecRptSync$SubExecRptSync
message ExecRptSync$SubExecRptSync
  pbu str 8 space right
  setId i32
  beginReportIndex i64
message ExecRptSyncRsp
  subExecRptSyncRsp list i16 obj ExecRptSyncRsp$SubExecRptSyncRsp
message ExecRptSyncRsp$SubExecRptSyncRsp
  pbu str 8 space right
  setId i32
  beginReportIndex i64
  endReportIndex i64
  rejReason i32
  text str 64 space right
message Heartbeat
message Logon
  senderCompId str 32 space right
  targetCompId str 32 space right
  heartBtInt i16
  prtclVersion str 8 space right
  tradeDate i32
  qsize i32
message Logout
  sessionStatus i32
  text str 64 space right
message NewOrderSingle
  bizId i32
  bizPbu str 8 space right
  clOrdId str 10 space right
  securityId str 12 space right
  account str 13 space right
  ownerType i8
  side str 1 space right
  price i64
  orderQty i64
  ordType str 1 space right
  timeInForce str 1 space right
  transactTime i64
  creditTag str 2 space right
  clearingFirm str 8 space right
  branchId str 8 space right
  userInfo str 32 space right
message OrderCancel
  bizId i32
  bizPbu str 8 space right
  clOrdId str 10 space right
  securityId str 12 space right
  account str 13 space right
  ownerType i8
  side str 1 space right
  origClOrdId str 10 space right
  transactTime i64
  branchId str 8 space right
  userInfo str 32 space right
message OrderReject
  bizId i32
  bizPbu str 8 space right
  clOrdId str 10 space right
  securityId str 12 space right
  ordRejReason i32
  tradeDate i32
  transactTime i64
  userInfo str 32 space right
message PlatformState
  platformId i16
  platformState i16
message Report
  pbu str 8 space right
  setId i32
  reportIndex i64
  bizId i32
  execType str 1 space right
  bizPbu str 8 space right
  clOrdId str 10 space right
  securityId str 12 space right
  account str 13 space right
  ownerType i8
  orderEntryTime i64
  lastPx i64
  lastQty i64
  grossTradeAmt i64
  side str 1 space right
  orderQty i64
  leavesQty i64
  ordStatus str 1 space right
  creditTag str 2 space right
  clearingFirm str 8 space right
  branchId str 8 space right
  trdCnfmId str 16 space right
  ordCnfmId str 16 space right
  tradeDate i32
  transactTime i64
  userInfo str 32 space right
message SseBinary
  msgType i32
  msgSeqNum i64
  msgBodyLen len body
  body union msgType i32
    case 33 Heartbeat
    case 40 Logon
    case 41 Logout
    case 58 NewOrderSingle
    case 61 OrderCancel
    case 32 Confirm
    case 59 CancelReject
    case 103 Report
    case 204 OrderReject
    case 209 PlatformState
    case 208 ExecRptInfo
    case 206 ExecRptSync
    case 207 ExecRptSyncRsp
    case 210 ExecRptEndOfStream
  checksum cksum SSE_BIN
