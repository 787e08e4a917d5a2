# ---- identifier generators ----
import generator sdk/generator
import token sdk/token

event RandomText = uniuri.Text(n, chars)(s)

pred alnum() = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"

target generator.RequestURI
  fn sdk/generator.lemmaRequestURI(ctx, issuer)(uri, genErr, valErr)
  panics C20
  ensures C34.accepted: genErr == nil ==> valErr == nil
  ensures C34.form: genErr == nil ==> rx("^urn:solid:[A-Za-z0-9]{32}$", uri)
  ensures C34.random: genErr == nil ==> (exists r in RandomText: r.n >= 32 && uri == "urn:solid:" + r.s)
  cover C34.accepted: genErr == nil

target generator.RequestURIForm
  fn sdk/generator.lemmaRequestURIForm(ctx, issuer, in)(err)
  panics C20
  ensures C34.rejected: err == nil ==> rx("urn:solid:[A-Za-z0-9]{32}", trim(in))
  ensures C34.complete: rx("^urn:solid:[A-Za-z0-9]{32}$", in) ==> err == nil
  cover C34.complete: err == nil

target generator.Code
  fn sdk/generator.lemmaAuthorizationCode(ctx, issuer)(code, genErr, valErr)
  panics C20
  ensures C34.accepted: genErr == nil ==> valErr == nil
  ensures C34.random: genErr == nil ==> (exists r in RandomText: r.n >= 32 && code == r.s && chars(code, alnum()))
  cover C34.accepted: genErr == nil

target generator.CodeForm
  fn sdk/generator.lemmaAuthorizationCodeForm(ctx, issuer, in)(err)
  panics C20
  ensures C34.rejected: err == nil ==> len(trim(in)) == 32
  cover C34.rejected: err == nil

target generator.Device
  fn sdk/generator.lemmaDeviceCode(ctx, issuer)(code, genErr, valErr)
  panics C20
  ensures C34.accepted: genErr == nil ==> valErr == nil
  ensures C34.random: genErr == nil ==> (exists r in RandomText: r.n >= 32 && code == r.s && chars(code, alnum()))
  cover C34.accepted: genErr == nil

target generator.DeviceForm
  fn sdk/generator.lemmaDeviceCodeForm(ctx, issuer, in)(err)
  panics C20
  ensures C34.rejected: err == nil ==> len(trim(in)) == 32
  cover C34.rejected: err == nil

target generator.UserCode
  fn sdk/generator.lemmaUserCode(ctx, issuer)(code, err)
  panics C20
  ensures C34.usercode: err == nil ==> rx("^[BCDFGHJKLMNPQRSTVWXZ]{4}-[BCDFGHJKLMNPQRSTVWXZ]{4}$", code)
  ensures C34.random: err == nil ==> (exists r in RandomText: r.n == 8 && code == sub(r.s, 0, 4) + "-" + sub(r.s, 4, 8))
  cover C34.usercode: err == nil

target generator.NumUserCode
  fn sdk/generator.lemmaNumUserCode(ctx, issuer)(code, err)
  panics C20
  ensures C34.usercode: err == nil ==> rx("^[0-9]{3}-[0-9]{3}-[0-9]{3}$", code)
  ensures C34.random: err == nil ==> (exists r in RandomText: r.n == 9 && code == sub(r.s, 0, 3) + "-" + sub(r.s, 3, 6) + "-" + sub(r.s, 6, 9))
  cover C34.usercode: err == nil

target generator.ClientID
  fn sdk/generator.lemmaClientID(ctx)(id, err)
  panics C20
  ensures C34.random: err == nil ==> (exists r in RandomText: r.n >= 16 && id == r.s && chars(id, alnum()))
  cover C34.random: err == nil

target generator.Opaque
  fn sdk/token.lemmaOpaqueToken(ctx, t)(raw, err)
  panics C20
  ensures C34.random: err == nil ==> len(raw) == 32 && (exists r in RandomText: r.n >= 28 && (exists q in RandomText: raw == q.s + "." + r.s))
  cover C34.random: err == nil
