module risk com.finproto.risk.bin.messages BE
message CancelReject
  uniqueOrderId dstr i32
  uniqueOrigOrderId dstr i32
  clOrdId dstr i32
  origClOrdId dstr i32
  cxlRejReason i32
message ExecutionReport
  uniqueOrderId dstr i32
  clOrdId dstr i32
  ordCnfmId dstr i32
  lastPx i64
  lastQty i64
  ordStatus str 1 space right
message NewOrder
  uniqueOrderId dstr i32
  clOrdId dstr i32
  securityId dstr i32
  side str 1 space right
  price i64
  orderQty i64
  ordType str 1 space right
  account dstr i32
message OrderCancel
  uniqueOrderId dstr i32
  uniqueOrigOrderId dstr i32
  clOrdId dstr i32
  origClOrdId dstr i32
  securityId dstr i32
message OrderConfirm
  uniqueOrderId dstr i32
  uniqueOrigOrderId dstr i32
  clOrdId dstr i32
  execType str 1 space right
  ordRejReason i32
  ordCnfmId dstr i32
message RcBinary
  msgType i32
  version i32
  msgBodyLen len body
  body union msgType i32
    case 100101 NewOrder
    case 200102 OrderConfirm
    case 200115 ExecutionReport
    case 190007 OrderCancel
    case 290008 CancelReject
    case 800001 RiskResult
message RiskResult
  uniqueOrderId dstr i32
  riskStatus i8
  riskReason dstr i32
