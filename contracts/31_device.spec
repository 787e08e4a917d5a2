target device.Authorize
  new server/services/device.New(clients, devices, devcodes, usercodes)(svc)
  call Authorize(ctx, req)(res, err)
  panics C20
  ensures C12.pending: forall e in DeviceRegister: e.issuer == old(req.Issuer) && e.issuer != "" && at(e, e.session.Status == sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING && e.session.Subject == nil && e.session.Issuer == e.issuer) && sameptr(at(e, e.session.Request), req) && at(e, e.session.Scope) == old(req.Scope) && at(e, e.session.Audience) == old(req.Audience)
  ensures C12.client: forall e in DeviceRegister: exists g in ClientGet: g.err == nil && g.id == old(req.ClientId) && g.id != "" && sameptr(at(e, e.session.Client), g.c) && foldIn(after(g, g.c.GrantTypes), oidc.GrantTypeDeviceCode)
  ensures C12.codes: forall e in DeviceRegister: (exists d in DeviceCodeGenerate: d.err == nil && d.issuer == e.issuer && at(e, e.session.DeviceCode) == d.code) && (exists u in UserCodeGenerate: u.err == nil && u.issuer == e.issuer && u.code == e.userCode)
  ensures C12.answer: err == nil ==> (exists e in DeviceRegister: e.err == nil && res.UserCode == e.userCode && res.DeviceCode == at(e, e.session.DeviceCode) && res.ExpiresIn == e.exp && res.Issuer == e.issuer)
  ensures C12.nocode: err != nil ==> res.DeviceCode == "" && res.UserCode == ""
  ensures C19.error: res != nil && (err != nil <=> res.Error != nil)
  cover C12.pending: err == nil && (exists e in DeviceRegister: true)

target device.Validate
  new server/services/device.New(clients, devices, devcodes, usercodes)(svc)
  call Validate(ctx, req)(res, err)
  panics C20
  ensures C12.validate: forall v in DeviceValidate: v.issuer == old(req.Issuer) && v.userCode == old(req.UserCode) && old(req.Subject) != "" && v.userCode != "" && v.issuer != "" && at(v, v.session.Status) == sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED && at(v, *v.session.Subject) == old(req.Subject)
  ensures C12.wasPending: forall v in DeviceValidate: exists g in DeviceGetByUser: g.err == nil && before(g, v) && g.issuer == v.issuer && g.userCode == v.userCode && sameptr(g.session, v.session) && after(g, g.session.Status) == sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING && after(g, g.session.ExpiresAt) >= unix(clock0)
  ensures C12.unchanged: forall v in DeviceValidate: exists g in DeviceGetByUser: at(v, v.session.DeviceCode) == after(g, g.session.DeviceCode) && at(v, v.session.ExpiresAt) == after(g, g.session.ExpiresAt) && sameptr(at(v, v.session.Request), after(g, g.session.Request)) && sameptr(at(v, v.session.Client), after(g, g.session.Client)) && at(v, v.session.Scope) == after(g, g.session.Scope) && at(v, v.session.Audience) == after(g, g.session.Audience)
  ensures C12.consumed: err == nil ==> (exists v in DeviceValidate: exists d in DeviceDelete: v.err == nil && d.err == nil && before(v, d) && d.issuer == old(req.Issuer) && d.userCode == old(req.UserCode))
  ensures C12.refused: none(DeviceValidate) ==> err != nil
  ensures C12.nomark: err != nil && none(DeviceValidate) ==> (forall g in DeviceGetByUser: g.err == nil ==> g.session.Status == after(g, g.session.Status) && g.session.Subject == after(g, g.session.Subject))
  ensures C19.error: res != nil && (err != nil <=> res.Error != nil)
  cover C12.validate: err == nil
