package github.com/fizzbee-io/fizzbee/modelchecker

// C21: what is recorded for the output is determined by the state, not by the order in which Go walks a map.

extern sort.Ints : x
  modifies elems(x)
  ensures forall i int {{x[i]}} :: 0 <= i && i < len(x) ==> exists j int {{old(x[j])}} :: 0 <= j && j < len(x) && x[i] == old(x[j])
  ensures forall i int {{old(x[i])}} :: 0 <= i && i < len(x) ==> exists j int {{x[j]}} :: 0 <= j && j < len(x) && x[j] == old(x[i])
  ensures forall i int, j int {{x[i], x[j]}} :: 0 <= i && i < j && j < len(x) ==> x[i] <= x[j]

func (*Process).channelsWithMessages
  props C21
  requires p != nil
  modifies nothing
  loop 1
    invariant len(ids) == $k && fresh(arr(ids)) && off(ids) == 0
    invariant [keys] forall q int {{ids[q]}} :: 0 <= q && q < $k ==> ids[q] in dom(p.ChannelMessages)
    invariant [seen] forall c int {{c in $seen}} :: c in $seen ==> exists q int {{ids[q]}} :: 0 <= q && q < len(ids) && ids[q] == c
  ensures [ascending] forall i int, j int {{result[i], result[j]}} :: 0 <= i && i < j && j < len(result) ==> result[i] <= result[j]
  ensures [channels] forall q int {{result[q]}} :: 0 <= q && q < len(result) ==> result[q] in dom(p.ChannelMessages)
  ensures [all] p.ChannelMessages != nil ==> forall c int {{c in dom(p.ChannelMessages)}} :: c in dom(p.ChannelMessages) ==> exists q int {{result[q]}} :: 0 <= q && q < len(result) && result[q] == c

macro msgs(p) = p.Messages
macro last(p) = p.Messages[len(p.Messages)-1]
macro inside(a, b) = (a.obj == nil && b.obj == nil) || a.obj == b.obj

func (*Process).RecordCall
  props C21
  requires p != nil && callerFrame != nil && receiverFrame != nil
  modifies p.Messages, elems(p.Messages)
  loop 1
    invariant len(names) == $k && fresh(arr(names)) && off(names) == 0
    invariant [keys] forall q int {{names[q]}} :: 0 <= q && q < $k ==> names[q] in dom(receiverFrame.vars)
    invariant [seen] forall k string {{k in $seen}} :: k in $seen ==> exists q int {{names[q]}} :: 0 <= q && q < len(names) && names[q] == k
  loop 2
    invariant [complete] receiverFrame.vars != nil ==> forall k string {{k in dom(receiverFrame.vars)}} :: k in dom(receiverFrame.vars) ==> exists q int {{names[q]}} :: 0 <= q && q < len(names) && names[q] == k
    invariant forall i int, j int {{names[i], names[j]}} :: 0 <= i && i < j && j < len(names) ==> names[i] <= names[j]
    invariant len(msg.Values) == $k && (msg.Values == nil || fresh(arr(msg.Values)) && off(msg.Values) == 0)
    invariant forall q int {{names[q]}} :: 0 <= q && q < len(names) ==> names[q] in dom(receiverFrame.vars)
    invariant [values] forall q int {{msg.Values[q]}} :: 0 <= q && q < $k ==> msg.Values[q] != nil && fresh(msg.Values[q]) && msg.Values[q].Name == names[q]
  ensures [local] inside(callerFrame, receiverFrame) ==> len(p.Messages) == old(len(p.Messages))
  ensures [one] !inside(callerFrame, receiverFrame) ==> len(p.Messages) == old(len(p.Messages)) + 1 && last(p) != nil && last(p).Name == receiverFrame.Name && !last(p).IsReturn
  ensures [earlier] forall q int {{p.Messages[q]}} :: 0 <= q && q < old(len(p.Messages)) ==> p.Messages[q] == old(p.Messages[q])
  ensures [sorted] !inside(callerFrame, receiverFrame) ==> forall i int, j int {{last(p).Values[i], last(p).Values[j]}} :: 0 <= i && i < j && j < len(last(p).Values) ==> last(p).Values[i].Name <= last(p).Values[j].Name
  ensures [all] !inside(callerFrame, receiverFrame) && receiverFrame.vars != nil ==> forall k string {{k in dom(receiverFrame.vars)}} :: k in dom(receiverFrame.vars) ==> exists q int {{last(p).Values[q]}} :: 0 <= q && q < len(last(p).Values) && last(p).Values[q].Name == k
  ensures [lossy] !inside(callerFrame, receiverFrame) ==> (last(p).Lossy <==> flow != 3)

func (*Process).RecordReturn
  props C21
  requires p != nil && callerFrame != nil && receiverFrame != nil
  modifies p.Messages, elems(p.Messages)
  ensures [local] inside(callerFrame, receiverFrame) ==> len(p.Messages) == old(len(p.Messages))
  ensures [one] !inside(callerFrame, receiverFrame) ==> len(p.Messages) == old(len(p.Messages)) + 1 && last(p) != nil && last(p).Name == receiverFrame.Name && last(p).IsReturn
  ensures [earlier] forall q int {{p.Messages[q]}} :: 0 <= q && q < old(len(p.Messages)) ==> p.Messages[q] == old(p.Messages[q])
  ensures [lossy] !inside(callerFrame, receiverFrame) ==> (last(p).Lossy <==> flow != 3)
  ensures [value] !inside(callerFrame, receiverFrame) && val != nil ==> len(last(p).Values) == 1
  ensures [novalue] !inside(callerFrame, receiverFrame) && val == nil ==> len(last(p).Values) == 0
