# ---- packages named in contracts ----
import storage server/storage
import oidc zntr.io/solid/oidc
import rfcerrors sdk/rfcerrors

# ---- assumed contracts of the interfaces a deployment supplies ----
# Storage and generator interfaces take their arguments read-only; a nil error means the
# other results are usable. In-memory implementations are verified against these in 60_storage.spec.
iface server/storage.ClientReader.Get(recv; ctx, id)(c, err)
iface server/storage.ClientReader.GetByName(recv; ctx, name)(c, err)
iface server/storage.ClientWriter.Register(recv; ctx, c)(id, err)
iface server/storage.AuthorizationRequestReader.Get(recv; ctx, issuer, uri)(ar, err)
iface server/storage.AuthorizationRequestWriter.Register(recv; ctx, issuer, uri, ar)(exp, err)
iface server/storage.AuthorizationRequestWriter.Delete(recv; ctx, issuer, uri)(err)
iface server/storage.AuthorizationCodeSessionReader.Get(recv; ctx, issuer, code)(session, err)
iface server/storage.AuthorizationCodeSessionWriter.Register(recv; ctx, issuer, code, session)(exp, err)
iface server/storage.AuthorizationCodeSessionWriter.Delete(recv; ctx, issuer, code)(err)
iface server/storage.TokenReader.Get(recv; ctx, issuer, id)(t, err)
iface server/storage.TokenReader.GetByValue(recv; ctx, issuer, value)(t, err)
iface server/storage.TokenWriter.Create(recv; ctx, issuer, t)(err)
iface server/storage.TokenWriter.Delete(recv; ctx, issuer, id)(err)
iface server/storage.TokenWriter.Revoke(recv; ctx, issuer, id)(err)
iface server/storage.DeviceCodeSessionWriter.Register(recv; ctx, issuer, userCode, session)(exp, err)
iface server/storage.DeviceCodeSessionWriter.Delete(recv; ctx, issuer, userCode)(err)
iface server/storage.DeviceCodeSessionWriter.Validate(recv; ctx, issuer, userCode, session)(err)
iface server/storage.DeviceCodeSessionReader.GetByDeviceCode(recv; ctx, issuer, deviceCode)(session, err)
iface server/storage.DeviceCodeSessionReader.GetByUserCode(recv; ctx, issuer, userCode)(session, err)
iface server/storage.DPoP.Register(recv; ctx, id)(err)
iface server/storage.DPoP.Delete(recv; ctx, id)(err)
iface server/storage.DPoP.Exists(recv; ctx, id)(ok, err)
iface server/storage.ResourceReader.GetByURI(recv; ctx, urn)(res, err)
iface sdk/generator.AuthorizationCode.Validate(recv; ctx, issuer, in)(err)
iface sdk/generator.AuthorizationCode.Generate(recv; ctx, issuer)(code, err)
iface sdk/generator.DeviceUserCode.Generate(recv; ctx, issuer)(code, err)
iface sdk/generator.DeviceCode.Validate(recv; ctx, issuer, in)(err)
iface sdk/generator.DeviceCode.Generate(recv; ctx, issuer)(code, err)
iface sdk/generator.ClientID.Generate(recv; ctx)(id, err)
iface sdk/generator.RequestURI.Validate(recv; ctx, issuer, in)(err)
iface sdk/generator.RequestURI.Generate(recv; ctx, issuer)(uri, err)

event ClientGet = server/storage.ClientReader.Get(recv; ctx, id)(c, err)
event ArGet = server/storage.AuthorizationRequestReader.Get(recv; ctx, issuer, uri)(ar, err)
event ArRegister = server/storage.AuthorizationRequestWriter.Register(recv; ctx, issuer, uri, ar)(exp, err)
event ArDelete = server/storage.AuthorizationRequestWriter.Delete(recv; ctx, issuer, uri)(err)
event CodeGet = server/storage.AuthorizationCodeSessionReader.Get(recv; ctx, issuer, code)(session, err)
event CodeRegister = server/storage.AuthorizationCodeSessionWriter.Register(recv; ctx, issuer, code, session)(exp, err)
event CodeDelete = server/storage.AuthorizationCodeSessionWriter.Delete(recv; ctx, issuer, code)(err)
event TokenGet = server/storage.TokenReader.Get(recv; ctx, issuer, id)(t, err)
event TokenGetByValue = server/storage.TokenReader.GetByValue(recv; ctx, issuer, value)(t, err)
event TokenCreate = server/storage.TokenWriter.Create(recv; ctx, issuer, t)(err)
event TokenDelete = server/storage.TokenWriter.Delete(recv; ctx, issuer, id)(err)
event TokenRevoke = server/storage.TokenWriter.Revoke(recv; ctx, issuer, id)(err)
event DeviceRegister = server/storage.DeviceCodeSessionWriter.Register(recv; ctx, issuer, userCode, session)(exp, err)
event DeviceDelete = server/storage.DeviceCodeSessionWriter.Delete(recv; ctx, issuer, userCode)(err)
event DeviceValidate = server/storage.DeviceCodeSessionWriter.Validate(recv; ctx, issuer, userCode, session)(err)
event DeviceGet = server/storage.DeviceCodeSessionReader.GetByDeviceCode(recv; ctx, issuer, deviceCode)(session, err)
event DeviceGetByUser = server/storage.DeviceCodeSessionReader.GetByUserCode(recv; ctx, issuer, userCode)(session, err)
event ProofRegister = server/storage.DPoP.Register(recv; ctx, id)(err)
event ProofDelete = server/storage.DPoP.Delete(recv; ctx, id)(err)
event ProofExists = server/storage.DPoP.Exists(recv; ctx, id)(ok, err)
event ResourceGet = server/storage.ResourceReader.GetByURI(recv; ctx, urn)(res, err)
event CodeGenerate = sdk/generator.AuthorizationCode.Generate(recv; ctx, issuer)(code, err)
event CodeValidate = sdk/generator.AuthorizationCode.Validate(recv; ctx, issuer, in)(err)
event DeviceCodeGenerate = sdk/generator.DeviceCode.Generate(recv; ctx, issuer)(code, err)
event DeviceCodeValidate = sdk/generator.DeviceCode.Validate(recv; ctx, issuer, in)(err)
event UserCodeGenerate = sdk/generator.DeviceUserCode.Generate(recv; ctx, issuer)(code, err)
event UriGenerate = sdk/generator.RequestURI.Generate(recv; ctx, issuer)(uri, err)
event UriValidate = sdk/generator.RequestURI.Validate(recv; ctx, issuer, in)(err)

pred in(x, s) = exists i in 0..len(s): s[i] == x

event Parse = jose.Parse(raw, algs)(tok, err)
