module bjse com.finproto.bjse.trade.messages LE
message AllegeQuote
  partitionNo i32
  reportIndex i64
  applId str 3 space right
  reportingPbuid str 6 space right
  submittingPbuid str 6 space right
  securityId str 8 space right
  securityIdsource str 4 space right
  ownerType i16
  clearingFirm str 2 space right
  transactTime i64
  userInfo str 32 space right
  orderId str 16 space right
  execId str 16 space right
  clOrdId str 10 space right
  accountId str 10 space right
  quoteReqId str 10 space right
  quoteId str 10 space right
  quoteRespId str 10 space right
  quoteType i8
  bidPx i64
  offerPx i64
  bidSize i64
  offerSize i64
  privateQuote i8
  validUntilTime i64
  priceType i8
  memo str 120 space right
  applExtend union applId key
    case 070 AllegeQuoteExtend070
message AllegeQuoteExtend070
  cashMargin str 1 space right
  counterPartyPbuid str 6 space right
message AllegeQuoteResponse
  partitionNo i32
  reportIndex i64
  applId str 3 space right
  reportingPbuid str 6 space right
  submittingPbuid str 6 space right
  securityId str 8 space right
  securityIdsource str 4 space right
  ownerType i16
  clearingFirm str 2 space right
  transactTime i64
  userInfo str 32 space right
  orderId str 16 space right
  execId str 16 space right
  clOrdId str 10 space right
  accountId str 10 space right
  quoteId str 10 space right
  quoteRespId str 10 space right
  quoteRespType i8
  privateQuote i8
  orderQty i64
  price i64
  validUntilTime i64
  quoteType i8
  priceType i8
message BjseBinary
  msgType i32
  bodyLength i32
  body union msgType i32
    case 1 Logon
    case 2 Logout
    case 3 Heartbeat
    case 101000 NewOrder
    case 102000 OrderCancelRequest
    case 201000 CancelReject
    case 202010 ExecutionConfirm
    case 203010 ExecutionReport
    case 5 ReportSynchronization
    case 6 PlatformStateInfo
    case 7 ReportFinished
  checksum i32
message BusinessReject
  applId str 3 space right
  transactTime i64
  submittingPbuid str 6 space right
  securityId str 8 space right
  securityIdsource str 4 space right
  refSeqNum i64
  refMsgType i32
  businessRejectRefId str 10 space right
  businessRejectReason i16
  businessRejectText str 50 space right
message CancelReject
  partitionNo i32
  reportIndex i64
  applId str 3 space right
  reportingPbuid str 6 space right
  submittingPbuid str 6 space right
  securityId str 8 space right
  securityIdsource str 4 space right
  ownerType i16
  clearingFirm str 2 space right
  transactTime i64
  userInfo str 32 space right
  clOrdId str 10 space right
  origClOrdId str 10 space right
  accountId str 10 space right
  branchId str 2 space right
  ordStatus str 1 space right
  cxlRejReason i16
  rejectText str 16 space right
  orderId str 16 space right
message ConfirmExtend010
  stopPx i64
  minQty i64
  maxPriceLevels i16
  timeInForce str 1 space right
  cashMargin str 1 space right
message ConfirmExtend040
  stopPx i64
  minQty i64
  maxPriceLevels i16
  timeInForce str 1 space right
  cashMargin str 1 space right
message ConfirmExtend041
message ConfirmExtend042
message ConfirmExtend043
message ConfirmExtend044
message ConfirmExtend045
message ConfirmExtend050
  expirationDays i16
  expirationType i8
  shareProperty str 2 space right
message ExecutionConfirm
  partitionNo i32
  reportIndex i64
  applId str 3 space right
  reportingPbuid str 6 space right
  submittingPbuid str 6 space right
  securityId str 8 space right
  securityIdsource str 4 space right
  ownerType i16
  clearingFirm str 2 space right
  transactTime i64
  userInfo str 32 space right
  orderId str 16 space right
  clOrdId str 10 space right
  origClOrdId str 10 space right
  execId str 16 space right
  execType str 1 space right
  ordStatus str 1 space right
  ordRejReason i16
  leavesQty i64
  cumQty i64
  side str 1 space right
  ordType str 1 space right
  orderQty i64
  price i64
  accountId str 10 space right
  branchId str 2 space right
  orderRestrictions str 4 space right
  applExtend union applId key
    case 010 ConfirmExtend010
    case 040 ConfirmExtend040
    case 041 ConfirmExtend041
    case 042 ConfirmExtend042
    case 043 ConfirmExtend043
    case 044 ConfirmExtend044
    case 045 ConfirmExtend045
    case 050 ConfirmExtend050
message ExecutionReport
  partitionNo i32
  reportIndex i64
  applId str 3 space right
  reportingPbuid str 6 space right
  submittingPbuid str 6 space right
  securityId str 8 space right
  securityIdsource str 4 space right
  ownerType i16
  clearingFirm str 2 space right
  transactTime i64
  userInfo str 32 space right
  orderId str 16 space right
  clOrdId str 10 space right
  execId str 16 space right
  execType str 1 space right
  ordStatus str 1 space right
  lastPx i64
  lastQty i64
  leavesQty i64
  cumQty i64
  side str 1 space right
  accountId str 10 space right
  branchId str 2 space right
  applExtend union applId key
    case 010 ReportExtend010
    case 040 ReportExtend040
    case 050 ReportExtend050
message Extend010
  stopPx i64
  minQty i64
  maxPriceLevels i16
  timeInForce i8
  cashMargin i8
  settlType i8
  settlPeriod i8
message Extend040
  stopPx i64
  minQty i64
  maxPriceLevels i16
  timeInForce i8
  cashMargin i8
message Extend041
message Extend042
message Extend043
message Extend044
message Extend045
message Extend050
  expirationDays i16
  expirationType i8
  shareProperty str 2 space right
message ExtendNewOrder010
  stopPx i64
  minQty i64
  maxPriceLevels i16
  timeInForce str 1 space right
  cashMargin str 1 space right
  settlType str 1 space right
  settlPeriod str 1 space right
message ExtendNewOrder040
  stopPx i64
  minQty i64
  maxPriceLevels i16
  timeInForce str 1 space right
  cashMargin str 1 space right
message ExtendNewOrder041
message ExtendNewOrder042
message ExtendNewOrder043
message ExtendNewOrder044
message ExtendNewOrder045
message ExtendNewOrder050
  expirationDays i16
  expirationType i8
  shareProperty str 2 space right
message Heartbeat
message Logon
  senderCompId str 20 space right
  targetCompId str 20 space right
  heartBtInt i32
  password str 16 space right
  defaultApplVerId str 32 space right
message Logout
  sessionStatus i32
  text str 200 space right
message NewOrder
  applId str 3 space right
  submittingPbuid str 6 space right
  securityId str 8 space right
  securityIdsource str 4 space right
  ownerType i16
  clearingFirm str 2 space right
  transactTime i64
  userInfo str 32 space right
  clOrdId str 10 space right
  accountId str 10 space right
  branchId str 2 space right
  orderRestrictions str 4 space right
  side str 1 space right
  ordType str 1 space right
  orderQty i64
  price i64
  applExtend union applId key
    case 010 ExtendNewOrder010
    case 040 ExtendNewOrder040
    case 041 ExtendNewOrder041
    case 042 ExtendNewOrder042
    case 043 ExtendNewOrder043
    case 044 ExtendNewOrder044
    case 045 ExtendNewOrder045
    case 050 ExtendNewOrder050
message OrderCancelRequest
  applId str 3 space right
  submittingPbuid str 6 space right
  securityId str 8 space right
  securityIdsource str 4 space right
  ownerType i16
  clearingFirm str 2 space right
  transactTime i64
  userInfo str 32 space right
  clOrdId str 10 space right
  origClOrdId str 10 space right
  accountId str 10 space right
  branchId str 2 space right
  orderId str 16 space right
  orderQty i64
message PlatformInfo
  platformId i16
  noPartitions list i16 obj PlatformInfo$NoPartitions
message PlatformInfo$NoPartitions
  partitionNo i32
  partitionName str 20 space right
message PlatformStateInfo
  platformId i16
  platformState i16
message Quote
  applId str 3 space right
  submittingPbuid str 6 space right
  securityId str 8 space right
  securityIdsource str 4 space right
  ownerType i16
  clearingFirm str 2 space right
  transactTime i64
  userInfo str 32 space right
  quoteMsgId str 10 space right
  accountId str 10 space right
  quoteReqId str 10 space right
  quoteType i8
  bidPx i64
  offerPx i64
  bidSize i64
  offerSize i64
  applExtend union applId key
    case 070 QuoteExtend070
    case 071 QuoteExtend071
message QuoteExtend070
  branchId str 2 space right
  quoteId str 10 space right
  quoteRespId str 10 space right
  privateQuote i8
  validUntilTime i64
  priceType i8
  cashMargin str 1 space right
  counterPartyPbuid str 6 space right
  memo str 120 space right
message QuoteExtend071
message QuoteResponse
  applId str 3 space right
  reportingPbuid str 6 space right
  submittingPbuid str 6 space right
  securityId str 8 space right
  securityIdsource str 4 space right
  ownerType i16
  clearingFirm str 2 space right
  transactTime i64
  userInfo str 32 space right
  clOrdId str 10 space right
  accountId str 10 space right
  branchId str 2 space right
  quoteRespId str 10 space right
  quoteRespType i8
  side str 1 space right
  validUntilTime i64
  quoteType i8
  priceType i8
  quote2 list i16 obj QuoteResponse$Quote2
  applExtend union applId key
    case 070 QuoteResponseExtend070
message QuoteResponse$Quote2
  quoteId str 10 space right
  quotePrice i64
  quoteQty i64
message QuoteResponseExtend070
  cashMargin str 1 space right
message QuoteStatusReport
  partitionNo i32
  reportIndex i64
  applId str 3 space right
  reportingPbuid str 6 space right
  submittingPbuid str 6 space right
  securityId str 8 space right
  securityIdsource str 4 space right
  ownerType i16
  clearingFirm str 2 space right
  transactTime i64
  userInfo str 32 space right
  quoteMsgId str 10 space right
  accountId str 10 space right
  quoteReqId str 10 space right
  quoteRjectReason i64
  quoteType i8
  bidPx i64
  offerPx i64
  bidSize i64
  offerSize i64
  applExtend union applId key
    case 070 QuoteStatusReportExtend070
message QuoteStatusReportExtend070
  branchId str 2 space right
  orderId str 16 space right
  execId str 16 space right
  quoteRespId str 10 space right
  privateQuote i8
  side str 1 space right
  priceType i8
  validUntilTime i64
  cashMargin str 1 space right
  counterPartyPbuid str 6 space right
  memo str 120 space right
  quote1 list i16 obj QuoteStatusReportExtend070$Quote1
message QuoteStatusReportExtend070$Quote1
  quoteId str 10 space right
  quotePrice i64
  quoteQty i64
message ReportExtend010
  cashMargin str 1 space right
  settlType str 1 space right
  settlPeriod str 1 space right
message ReportExtend040
  cashMargin str 1 space right
message ReportExtend050
  expirationDays i16
  expirationType i8
  maturityDate i32
  shareProperty str 2 space right
message ReportFinished
  partitionNo i32
  reportIndex i64
  platformId i16
message ReportSynchronization
  reportPartitionSync list i16 obj ReportSynchronization$ReportPartitionSync
message ReportSynchronization$ReportPartitionSync
  partitionNo i32
  reportIndex i64
message TradeCaptureCofirm
  partitionNo i32
  reportIndex i64
  applId str 3 space right
  reportingPbuid str 6 space right
  submittingPbuid str 6 space right
  securityId str 8 space right
  securityIdsource str 4 space right
  ownerType i16
  clearingFirm str 2 space right
  transactTime i64
  userInfo str 32 space right
  tradeId str 16 space right
  tradeReportId str 10 space right
  tradeReportType i8
  tradeReportTransType i8
  tradeHandlingInstr i8
  lastPx i64
  lastQty i64
  trdType i16
  trdSubType i16
  confirmId i32
  execId str 16 space right
  side i8
  pbuid str 6 space right
  accountId str 10 space right
  branchId str 2 space right
  counterPartyPbuid str 6 space right
  counterPartyAccountId str 10 space right
  counterPartyBranchId str 2 space right
  applExtend union applId key
    case 031 TradeCaptureCofirmExtend031
    case 051 TradeCaptureCofirmExtend051
    case 060 TradeCaptureCofirmExtend060
    case 061 TradeCaptureCofirmExtend061
    case 062 TradeCaptureCofirmExtend062
message TradeCaptureCofirmExtend031
  memberId str 6 space right
  traderCode str 5 space right
  counterPartyMemberId str 6 space right
  counterPartyTraderCode str 5 space right
  settlType i8
  settlPeriod i8
  cashMargin i8
  memo str 120 space right
message TradeCaptureCofirmExtend051
  expirationDays i16
  expirationType i8
  maturityDate i32
  shareProperty str 2 space right
message TradeCaptureCofirmExtend060
message TradeCaptureCofirmExtend061
message TradeCaptureCofirmExtend062
  cashMargin i8
message TradeCaptureConfirm
  partitionNo i32
  reportIndex i64
  applId str 3 space right
  reportingPbuid str 6 space right
  submittingPbuid str 6 space right
  securityId str 8 space right
  securityIdsource str 4 space right
  ownerType i16
  clearingFirm str 2 space right
  transactTime i64
  userInfo str 32 space right
  tradeId str 16 space right
  tradeReportId str 10 space right
  tradeReportType i8
  tradeReportTransType i8
  tradeHandlingInstr str 1 space right
  lastPx i64
  lastQty i64
  trdType i16
  trdSubType i16
  confirmId i32
  execId str 16 space right
  side str 1 space right
  pbuid str 6 space right
  accountId str 10 space right
  branchId str 2 space right
  counterPartyPbuid str 6 space right
  counterPartyAccountId str 10 space right
  counterPartyBranchId str 2 space right
  applExtend union applId key
    case 031 TradeCaptureConfirmExtend031
    case 051 TradeCaptureConfirmExtend051
    case 060 TradeCaptureConfirmExtend060
    case 061 TradeCaptureConfirmExtend061
    case 062 TradeCaptureConfirmExtend062
message TradeCaptureConfirmExtend031
  memberId str 6 space right
  traderCode str 5 space right
  counterPartyMemberId str 6 space right
  counterPartyTraderCode str 5 space right
  settlType str 1 space right
  settlPeriod str 1 space right
  cashMargin str 1 space right
  memo str 120 space right
message TradeCaptureConfirmExtend051
  expirationDays i16
  expirationType i8
  maturityDate i32
  shareProperty str 2 space right
message TradeCaptureConfirmExtend060
message TradeCaptureConfirmExtend061
message TradeCaptureConfirmExtend062
  cashMargin str 1 space right
message TradeCaptureReport
  applId str 3 space right
  submittingPbuid str 6 space right
  securityId str 8 space right
  securityIdsource str 4 space right
  ownerType i16
  clearingFirm str 2 space right
  transactTime i64
  userInfo str 32 space right
  tradeReportId str 10 space right
  tradeReportType i8
  tradeReportTransType i8
  tradeHandlingInstr str 1 space right
  tradeReportRefId str 10 space right
  lastPx i64
  lastQty i64
  trdType i16
  trdSubType i16
  confirmId i32
  side str 1 space right
  pbuid str 6 space right
  accountId str 10 space right
  branchId str 2 space right
  counterPartyPbuid str 6 space right
  counterPartyAccountId str 10 space right
  counterPartyBranchId str 2 space right
  applExtend union applId key
    case 031 TradeCaptureReportExtend031
    case 051 TradeCaptureReportExtend051
    case 060 TradeCaptureReportExtend060
    case 061 TradeCaptureReportExtend061
    case 062 TradeCaptureReportExtend062
message TradeCaptureReportAck
  partitionNo i32
  reportIndex i64
  applId str 3 space right
  reportingPbuid str 6 space right
  submittingPbuid str 6 space right
  securityId str 8 space right
  securityIdsource str 4 space right
  ownerType i16
  clearingFirm str 2 space right
  transactTime i64
  userInfo str 32 space right
  tradeId str 16 space right
  tradeReportId str 10 space right
  tradeReportType i8
  tradeReportTransType i8
  tradeHandlingInstr str 1 space right
  tradeReportRefId str 10 space right
  trdAckStatus i8
  trdRptStatus i8
  tradeReportRejectReason i16
  lastPx i64
  lastQty i64
  trdType i16
  trdSubType i16
  confirmId i32
  execId str 16 space right
  side str 1 space right
  pbuid str 6 space right
  accountId str 10 space right
  branchId str 2 space right
  counterPartyPbuid str 6 space right
  counterPartyAccountId str 10 space right
  counterPartyBranchId str 2 space right
  applExtend union applId key
    case 031 TradeCaptureReportAckExtend031
    case 051 TradeCaptureReportAckExtend051
    case 060 TradeCaptureReportAckExtend060
    case 061 TradeCaptureReportAckExtend061
    case 062 TradeCaptureReportAckExtend062
message TradeCaptureReportAckExtend031
  memberId str 6 space right
  traderCode str 5 space right
  counterPartyMemberId str 6 space right
  counterPartyTraderCode str 5 space right
  settlType str 1 space right
  settlPeriod str 1 space right
  cashMargin str 1 space right
  memo str 120 space right
message TradeCaptureReportAckExtend051
  expirationDays i16
  expirationType i8
  shareProperty str 2 space right
message TradeCaptureReportAckExtend060
message TradeCaptureReportAckExtend061
message TradeCaptureReportAckExtend062
  cashMargin str 1 space right
message TradeCaptureReportExtend031
  memberId str 6 space right
  traderCode str 5 space right
  counterPartyMemberId str 6 space right
  counterPartyTraderCode str 5 space right
  settlType str 1 space right
  settlPeriod str 1 space right
  cashMargin str 1 space right
  memo str 120 space right
message TradeCaptureReportExtend051
  expirationDays i16
  expirationType i8
  shareProperty str 2 space right
message TradeCaptureReportExtend060
message TradeCaptureReportExtend061
message TradeCaptureReportExtend062
  cashMargin str 1 space right
message TradingSessionStatus
  marketId str 3 space right
  marketSegmentId str 3 space right
  tradingSessionId str 3 space right
  tradingSessionSubId str 3 space right
  tradSesStatus i8
  tradSesStartTime i64
