module szse com.finproto.szse.bin.messages BE
message BusinessReject
  applId str 3 space right
  transactTime i64
  submittingPbuid str 6 space right
  securityId str 8 space right
  securityIdsource str 4 space right
  refSeqNum i64
  refMsgType i32
  businessRejectRefId str 10 space right
  businessRejectReason i16
  businessRejectText str 50 space right
message CancelReject
  partitionNo i32
  reportIndex i64
  applId str 3 space right
  reportingPbuid str 6 space right
  submittingPbuid str 6 space right
  securityId str 8 space right
  securityIdsource str 4 space right
  ownerType i16
  clearingFirm str 2 space right
  transactTime i64
  userInfo str 8 space right
  clOrdId str 10 space right
  origClOrdId str 10 space right
  side str 1 space right
  ordStatus str 1 space right
  cxlRejReason i16
  rejectText str 16 space right
  orderId str 16 space right
message ExecutionConfirm
  partitionNo i32
  reportIndex i64
  applId str 3 space right
  reportingPbuid str 6 space right
  submittingPbuid str 6 space right
  securityId str 8 space right
  securityIdsource str 4 space right
  ownerType i16
  clearingFirm str 2 space right
  transactTime i64
  userInfo str 8 space right
  orderId str 16 space right
  clOrdId str 10 space right
  quoteMsgId str 10 space right
  origClOrdId str 10 space right
  execId str 16 space right
  execType str 1 space right
  ordStatus str 1 space right
  ordRejReason i16
  leavesQty i64
  cumQty i64
  side str 1 space right
  ordType str 1 space right
  orderQty i64
  price i64
  accountId str 12 space right
  branchId str 4 space right
  orderRestrictions str 4 space right
  applExtend union applId key
    case 010 Extend200102
    case 020 Extend200202
    case 030 Extend200302
    case 051 Extend200502
    case 052 Extend200502
    case 060 Extend200602
    case 061 Extend200602
    case 070 Extend200702
    case 150 Extend201502
    case 151 Extend201502
    case 152 Extend201502
    case 160 Extend201602
    case 170 Extend201702
    case 180 Extend201802
    case 181 Extend201802
    case 270 Extend202702
    case 271 Extend202702
    case 280 Extend202802
    case 281 Extend202802
    case 290 Extend202902
    case 291 Extend202902
    case 630 Extend206302
    case 350 Extend203502
    case 351 Extend203502
    case 370 Extend203702
    case 410 Extend204102
    case 417 Extend204129
    case 470 Extend204702
message ExecutionReport
  partitionNo i32
  reportIndex i64
  applId str 3 space right
  reportingPbuid str 6 space right
  submittingPbuid str 6 space right
  securityId str 8 space right
  securityIdsource str 4 space right
  ownerType i16
  clearingFirm str 2 space right
  transactTime i64
  userInfo str 8 space right
  orderId str 16 space right
  clOrdId str 10 space right
  quoteMsgId str 10 space right
  execId str 16 space right
  execType str 1 space right
  ordStatus str 1 space right
  lastPx i64
  lastQty i64
  leavesQty i64
  cumQty i64
  side str 1 space right
  accountId str 12 space right
  branchId str 4 space right
  applExtend union applId key
    case 010 Extend200115
    case 020 Extend200215
    case 030 Extend200315
    case 051 Extend200515
    case 052 Extend200515
    case 056 Extend200515
    case 057 Extend200515
    case 060 Extend200615
    case 061 Extend200615
    case 070 Extend200715
    case 630 Extend206315
    case 370 Extend203715
    case 410 Extend204115
    case 412 Extend204115
    case 413 Extend204115
    case 415 Extend204115
    case 416 Extend204115
    case 417 Extend204130
    case 470 Extend204715
message Extend100101
  stopPx i64
  minQty i64
  maxPriceLevels i16
  timeInForce str 1 space right
  cashMargin str 1 space right
message Extend100201
  stopPx i64
  minQty i64
  maxPriceLevels i16
  timeInForce str 1 space right
message Extend100301
  stopPx i64
  minQty i64
  maxPriceLevels i16
  timeInForce str 1 space right
message Extend100501
  confirmId str 8 space right
  cashMargin str 1 space right
message Extend100601
  cashMargin str 1 space right
message Extend100701
  expirationDays i16
  expirationType i8
  shareProperty str 2 space right
message Extend101401
  stopPx i64
  minQty i64
  maxPriceLevels i16
  timeInForce str 1 space right
  positionEffect str 1 space right
  coveredOrUncovered i8
  contractAccountCode str 6 space right
  secondaryOrderId str 16 space right
message Extend101501
  shareProperty str 2 space right
message Extend101601
  contractAccountCode str 6 space right
message Extend101701
  cashOrderQty i64
message Extend101801
  tenderer str 6 space right
message Extend102701
  disposalPbu str 6 space right
  disposalAccountId str 12 space right
message Extend102801
  lenderPbu str 6 space right
  lenderAccountId str 12 space right
message Extend102901
  deductionPbu str 6 space right
  deductionAccountId str 12 space right
message Extend103501
  contractAccountCode str 6 space right
message Extend103701
  cashMargin str 1 space right
message Extend104101
  stopPx i64
  minQty i64
  maxPriceLevels i16
  timeInForce str 1 space right
  cashMargin str 1 space right
message Extend104128
  memberId str 6 space right
  investorType str 2 space right
  investorId str 10 space right
  investorName str 120 space right
  traderCode str 8 space right
  secondaryOrderId str 16 space right
  bidTransType i16
  bidExecInstType i16
  lowLimitPrice i64
  highLimitPrice i64
  minQty i64
  tradeDate i32
  settlType i16
  settlPeriod i8
  preTradeAnonymity i8
  cashMargin str 1 space right
  memo str 160 space right
message Extend104701
  secondaryOrderId str 16 space right
message Extend106301
  stopPx i64
  minQty i64
  maxPriceLevels i16
  timeInForce str 1 space right
  lotType str 1 space right
message Extend200102
  stopPx i64
  minQty i64
  maxPriceLevels i16
  timeInForce str 1 space right
  cashMargin str 1 space right
message Extend200115
  cashMargin str 1 space right
message Extend200202
  stopPx i64
  minQty i64
  maxPriceLevels i16
  timeInForce str 1 space right
message Extend200215
  maturityDate i32
message Extend200302
  stopPx i64
  minQty i64
  maxPriceLevels i16
  timeInForce str 1 space right
message Extend200315
  maturityDate i32
message Extend200402
  stopPx i64
  minQty i64
  maxPriceLevels i16
  timeInForce str 1 space right
  positionEffect str 1 space right
  coveredOrUncovered i8
  contractAccountCode str 6 space right
  secondaryOrderId str 16 space right
message Extend200415
  positionEffect str 1 space right
  coveredOrUncovered i8
  contractAccountCode str 6 space right
  secondaryOrderId str 16 space right
message Extend200502
  confirmId str 8 space right
  cashMargin str 1 space right
message Extend200515
  confirmId str 8 space right
  cashMargin str 1 space right
message Extend200602
  cashMargin str 1 space right
message Extend200615
  cashMargin str 1 space right
message Extend200702
  expirationDays i16
  expirationType i8
  shareProperty str 2 space right
message Extend200715
  expirationDays i16
  expirationType i8
  maturityDate i32
  shareProperty str 2 space right
message Extend201202
  insufficientSecurityId str 8 space right
  noSecurity i32
  underlyingSecurityId str 8 space right
  underlyingSecurityIdsource str 4 space right
  deliveryQty i64
  substCash i64
message Extend201502
  shareProperty str 2 space right
message Extend201602
  contractAccountCode str 6 space right
message Extend201702
  cashOrderQty i64
message Extend201802
  tenderer str 6 space right
message Extend202702
  disposalPbu str 6 space right
  disposalAccountId str 12 space right
message Extend202802
  lenderPbu str 6 space right
  lenderAccountId str 12 space right
message Extend202902
  deductionPbu str 6 space right
  deductionAccountId str 12 space right
message Extend203102
  insufficientSecurityId str 8 space right
  noSecurity i32
  underlyingSecurityId str 8 space right
  underlyingSecurityIdsource str 4 space right
  deliveryQty i64
message Extend203502
  contractAccountCode str 6 space right
message Extend203702
  cashMargin str 1 space right
message Extend203715
  cashMargin str 1 space right
message Extend204102
  stopPx i64
  minQty i64
  maxPriceLevels i16
  timeInForce str 1 space right
  cashMargin str 1 space right
message Extend204115
  cashMargin str 1 space right
  settlType i16
  settlPeriod i8
  counterpartyMemberId str 6 space right
  counterpartyInvestorType str 2 space right
  counterpartyInvestorId str 10 space right
  counterpartyInvestorName str 120 space right
  counterpartyTraderCode str 8 space right
message Extend204129
  memberId str 6 space right
  investorType str 2 space right
  investorId str 10 space right
  investorName str 120 space right
  traderCode str 8 space right
  secondaryOrderId str 16 space right
  bidTransType i16
  bidExecInstType i16
  lowLimitPrice i64
  highLimitPrice i64
  minQty i64
  tradeDate i32
  settlType i16
  settlPeriod i8
  preTradeAnonymity i8
  cashMargin str 1 space right
  memo str 160 space right
message Extend204130
  memberId str 6 space right
  investorType str 2 space right
  investorId str 10 space right
  investorName str 120 space right
  traderCode str 8 space right
  counterpartyMemberId str 6 space right
  counterpartyInvestorType str 2 space right
  counterpartyInvestorId str 10 space right
  counterpartyInvestorName str 120 space right
  counterpartyTraderCode str 8 space right
  secondaryOrderId str 16 space right
  bidTransType i16
  bidExecInstType i16
  settlType i16
  settlPeriod i8
  cashMargin str 1 space right
  memo str 160 space right
message Extend204702
  secondaryOrderId str 16 space right
message Extend204715
  expirationDays i16
  expirationType i8
  maturityDate i32
  shareProperty str 2 space right
message Extend206302
  rejectText str 16 space right
  stopPx i64
  minQty i64
  maxPriceLevels i16
  timeInForce str 1 space right
  lotType str 1 space right
  imcrejectTextLen i32
  imcrejectText dstr i32
message Extend206315
  cashMargin str 1 space right
message Heartbeat
message Logon
  senderCompId str 20 space right
  targetCompId str 20 space right
  heartBtint i32
  password str 16 space right
  defaultApplVerId str 32 space right
message Logout
  sessionStatus i32
  text str 200 space right
message NewOrder
  applId str 3 space right
  submittingPbuid str 6 space right
  securityId str 8 space right
  securityIdsource str 4 space right
  ownerType i16
  clearingFirm str 2 space right
  transactTime i64
  userInfo str 8 space right
  clOrdId str 10 space right
  accountId str 12 space right
  branchId str 4 space right
  orderRestrictions str 4 space right
  side str 1 space right
  ordType str 1 space right
  orderQty i64
  price i64
  applExtend union applId key
    case 010 Extend100101
    case 020 Extend100201
    case 030 Extend100301
    case 051 Extend100501
    case 052 Extend100501
    case 060 Extend100601
    case 061 Extend100601
    case 070 Extend100701
    case 150 Extend101501
    case 151 Extend101501
    case 152 Extend101501
    case 160 Extend101601
    case 170 Extend101701
    case 180 Extend101801
    case 181 Extend101801
    case 270 Extend102701
    case 271 Extend102701
    case 280 Extend102801
    case 281 Extend102801
    case 290 Extend102901
    case 291 Extend102901
    case 630 Extend106301
    case 350 Extend103501
    case 351 Extend103501
    case 370 Extend103701
    case 410 Extend104101
    case 417 Extend104128
    case 470 Extend104701
message OrderCancelRequest
  applId str 3 space right
  submittingPbuid str 6 space right
  securityId str 8 space right
  securityIdsource str 4 space right
  ownerType i16
  clearingFirm str 2 space right
  transactTime i64
  userInfo str 8 space right
  clOrdId str 10 space right
  origClOrdId str 10 space right
  side str 1 space right
  orderId str 16 space right
  orderQty i64
message PartitionReport
  partitionNo i32
  reportIndex i64
message PlatformInfo
  platformId i16
  platformPartition list i32 obj PlatformPartition
message PlatformPartition
  partitionNo i32
message PlatformStateInfo
  platformId i16
  platformState i16
message ReportFinished
  partitionNo i32
  reportIndex i64
  platformId i16
message ReportSynchronization
  partitionReport list i32 obj PartitionReport
message SzseBinary
  msgType i32
  bodyLength len body
  body union msgType i32
    case 1 Logon
    case 2 Logout
    case 3 Heartbeat
    case 4 BusinessReject
    case 5 ReportSynchronization
    case 6 PlatformStateInfo
    case 7 ReportFinished
    case 9 PlatformPartition
    case 10 TradingSessionStatus
    case 100101 NewOrder
    case 100201 NewOrder
    case 100301 NewOrder
    case 100401 NewOrder
    case 100501 NewOrder
    case 100601 NewOrder
    case 100701 NewOrder
    case 101201 NewOrder
    case 101301 NewOrder
    case 101401 NewOrder
    case 101501 NewOrder
    case 101601 NewOrder
    case 101701 NewOrder
    case 101801 NewOrder
    case 101901 NewOrder
    case 102301 NewOrder
    case 102701 NewOrder
    case 102801 NewOrder
    case 102901 NewOrder
    case 103101 NewOrder
    case 106301 NewOrder
    case 103301 NewOrder
    case 103501 NewOrder
    case 103701 NewOrder
    case 104101 NewOrder
    case 104128 NewOrder
    case 104701 NewOrder
    case 200102 ExecutionConfirm
    case 200202 ExecutionConfirm
    case 200302 ExecutionConfirm
    case 200402 ExecutionConfirm
    case 200502 ExecutionConfirm
    case 200602 ExecutionConfirm
    case 200702 ExecutionConfirm
    case 201202 ExecutionConfirm
    case 201302 ExecutionConfirm
    case 201402 ExecutionConfirm
    case 201502 ExecutionConfirm
    case 201602 ExecutionConfirm
    case 201702 ExecutionConfirm
    case 201802 ExecutionConfirm
    case 201902 ExecutionConfirm
    case 202202 ExecutionConfirm
    case 202302 ExecutionConfirm
    case 202702 ExecutionConfirm
    case 202802 ExecutionConfirm
    case 202902 ExecutionConfirm
    case 203102 ExecutionConfirm
    case 206302 ExecutionConfirm
    case 203302 ExecutionConfirm
    case 203502 ExecutionConfirm
    case 203702 ExecutionConfirm
    case 204102 ExecutionConfirm
    case 204129 ExecutionConfirm
    case 204702 ExecutionConfirm
    case 200115 ExecutionReport
    case 200215 ExecutionReport
    case 200315 ExecutionReport
    case 200415 ExecutionReport
    case 200515 ExecutionReport
    case 200615 ExecutionReport
    case 200715 ExecutionReport
    case 206315 ExecutionReport
    case 203715 ExecutionReport
    case 204115 ExecutionReport
    case 204130 ExecutionReport
    case 190007 OrderCancelRequest
    case 290008 CancelReject
  checksum cksum SZSE_BIN
message TradingSessionStatus
  marketId str 8 space right
  marketSegmentId str 8 space right
  tradingSessionId str 4 space right
  tradingSessionSubId str 4 space right
  tradSesStatus i16
  tradSesStartTime i64
  tradSesEndTime i64
