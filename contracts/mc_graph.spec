package github.com/fizzbee-io/fizzbee/modelchecker

// C17: the graph that is analysed and exported is the one that was explored.

ghost jsonOf(*Node) string
extern (*github.com/fizzbee-io/fizzbee/modelchecker.Node).GetJsonString : n
  modifies nothing
  ensures result == jsonOf(n)
extern os.MkdirAll : path, perm
  modifies nothing
extern path/filepath.Dir : path
  modifies nothing
extern github.com/fizzbee-io/fizzbee/modelchecker.writeProtoMsgToFile : message, filename
  modifies nothing
extern github.com/fizzbee-io/fizzbee/modelchecker.writeNodeJsonsToFile : nodeJsons, filename
  modifies nothing
extern sort.Strings : x
  modifies elems(x)
  ensures forall i int {{x[i]}} :: 0 <= i && i < len(x) ==> exists j int {{old(x[j])}} :: 0 <= j && j < len(x) && x[i] == old(x[j])
  ensures forall i int {{old(x[i])}} :: 0 <= i && i < len(x) ==> exists j int {{x[j]}} :: 0 <= j && j < len(x) && x[j] == old(x[i])
  ensures forall i int, j int {{x[i], x[j]}} :: 0 <= i && i < j && j < len(x) ==> x[i] <= x[j]

func returnsToNameValues
  props C17 C21
  modifies nothing
  loop 1
    invariant len(names) == $k && fresh(arr(names)) && off(names) == 0
    invariant [keys] forall q int {{names[q]}} :: 0 <= q && q < $k ==> names[q] in dom(returns)
    invariant [seen] forall k string {{k in $seen}} :: k in $seen ==> exists q int {{names[q]}} :: 0 <= q && q < len(names) && names[q] == k
  loop 2
    invariant [complete] forall k string {{k in dom(returns)}} :: k in dom(returns) ==> exists q int {{names[q]}} :: 0 <= q && q < len(names) && names[q] == k
    invariant forall i int, j int {{names[i], names[j]}} :: 0 <= i && i < j && j < len(names) ==> names[i] <= names[j]
    invariant len(out) == $k && fresh(arr(out)) && off(out) == 0
    invariant forall q int {{names[q]}} :: 0 <= q && q < len(names) ==> names[q] in dom(returns)
    invariant [values] forall q int {{out[q]}} :: 0 <= q && q < $k ==> out[q] != nil && fresh(out[q]) && out[q].Name == names[q] && out[q].Value == strOf(returns[names[q]])
  ensures [none] len(returns) == 0 ==> result == nil
  ensures [all] len(returns) > 0 ==> forall k string {{k in dom(returns)}} :: k in dom(returns) ==> exists q int {{result[q]}} :: 0 <= q && q < len(result) && result[q].Name == k
  ensures [sorted] forall i int, j int {{result[i], result[j]}} :: 0 <= i && i < j && j < len(result) ==> result[i].Name <= result[j].Name
  ensures [values] forall q int {{result[q]}} :: 0 <= q && q < len(result) ==> result[q] != nil && result[q].Name in dom(returns) && result[q].Value == strOf(returns[result[q].Name])

macro links(m) = m.(*proto.Links)

func GenerateErrorPathProtoOfJson
  props C17
  requires len(errorPath) > 0 && forall i int {{errorPath[i]}} :: 0 <= i && i < len(errorPath) ==> errorPath[i] != nil && errorPath[i].Node != nil
  modifies nothing
  loop 1
    invariant len(nodeJsons) == $k
    invariant nodeJsons == nil || fresh(arr(nodeJsons)) && off(nodeJsons) == 0
    invariant [nodes] forall q int {{nodeJsons[q]}} :: 0 <= q && q < $k ==> nodeJsons[q] == jsonOf(errorPath[q].Node)
  loop 2
    invariant len(links) == $k
    invariant links == nil || fresh(arr(links)) && off(links) == 0
    invariant forall q int {{links[q]}} :: 0 <= q && q < $k ==> links[q] != nil && fresh(links[q])
    invariant [ends] forall q int {{links[q]}} :: 0 <= q && q < $k ==> links[q].Src == q && links[q].Dest == q + 1
    invariant [data] forall q int {{links[q]}} :: 0 <= q && q < $k ==> links[q].Name == errorPath[q+1].Name && links[q].Labels == errorPath[q+1].Labels && links[q].Messages == errorPath[q+1].Messages && links[q].ReqId == errorPath[q+1].ReqId
  // what is written: the states of the path in its order, and a link from each to the next with the data of the step
  oncall writeNodeJsonsToFile [states] len(nodeJsons) == len(errorPath) && forall q int {{nodeJsons[q]}} :: 0 <= q && q < len(errorPath) ==> nodeJsons[q] == jsonOf(errorPath[q].Node)
  oncall writeProtoMsgToFile [ends] typeis(message, *proto.Links) && links(message).TotalNodes == len(errorPath) && len(links(message).Links) == len(errorPath) - 1 && forall q int {{links(message).Links[q]}} :: 0 <= q && q < len(errorPath) - 1 ==> links(message).Links[q] != nil && links(message).Links[q].Src == q && links(message).Links[q].Dest == q + 1
  oncall writeProtoMsgToFile [data] forall q int {{links(message).Links[q]}} :: 0 <= q && q < len(errorPath) - 1 ==> links(message).Links[q].Name == errorPath[q+1].Name && links(message).Links[q].Labels == errorPath[q+1].Labels && links(message).Links[q].Messages == errorPath[q+1].Messages && links(message).Links[q].ReqId == errorPath[q+1].ReqId

ghost replaced(string; string; string) string
extern strings.ReplaceAll : s, from, to
  modifies nothing
  ensures result == replaced(s, from, to)

// linkPos(i): how many links come before those of node i. The requirements are its definition and a consequence of it.
ghost linkPos(int) int
macro linkOk(l, o, i, im) = l.Src == i && (o.Node in dom(im) ==> l.Dest == im[o.Node]) && l.ReqId == o.ReqId && l.Labels == o.Labels && l.Messages == o.Messages && l.Type == o.Type
macro mapOk(l, o) = l.NewToOldThreads != nil && (forall t int {{t in dom(l.NewToOldThreads)}} :: t in dom(l.NewToOldThreads) <==> t in dom(o.ThreadsMap)) && (forall t int {{l.NewToOldThreads[t]}} :: t in dom(o.ThreadsMap) ==> l.NewToOldThreads[t] == o.ThreadsMap[t])

func GenerateProtoOfJson
  props C17
  requires len(nodes) < 1000000 && forall i int {{nodes[i]}} :: 0 <= i && i < len(nodes) ==> nodes[i] != nil && forall j int {{nodes[i].Outbound[j]}} :: 0 <= j && j < len(nodes[i].Outbound) ==> nodes[i].Outbound[j] != nil
  requires forall i int, j int {{nodes[i], nodes[j]}} :: 0 <= i && i < j && j < len(nodes) ==> nodes[i] != nodes[j]
  requires linkPos(0) == 0 && linkPos(len(nodes)) < 10000000 && forall i int {{nodes[i]}} :: 0 <= i && i < len(nodes) ==> linkPos(i + 1) == linkPos(i) + max(1, len(nodes[i].Outbound))
  requires forall i int, j int {{linkPos(i), linkPos(j)}} :: 0 <= i && i < j && j <= len(nodes) ==> linkPos(i) + max(1, len(nodes[i].Outbound)) <= linkPos(j)
  noframe
  loop 1
    invariant len(nodeJsons) == $k && fresh(arr(nodeJsons)) && off(nodeJsons) == 0
    invariant [nodes] forall q int {{nodeJsons[q]}} :: 0 <= q && q < $k ==> nodeJsons[q] == jsonOf(nodes[q])
    invariant [index] forall q int {{nodes[q]}} :: 0 <= q && q < $k ==> nodes[q] in dom(indexMap) && indexMap[nodes[q]] == q
  loop 2
    invariant fresh(arr(links)) && off(links) == 0
    invariant len(links) == linkPos($k)
    invariant forall q int {{links[q]}} :: 0 <= q && q < len(links) ==> links[q] != nil && fresh(links[q])
    invariant forall q int {{nodes[q]}} :: 0 <= q && q < len(nodes) ==> nodes[q] in dom(indexMap) && indexMap[nodes[q]] == q
    invariant [ends] forall i int, j int {{linkPos(i), nodes[i].Outbound[j]}} :: 0 <= i && i < $k && 0 <= j && j < len(nodes[i].Outbound) ==> linkOk(links[linkPos(i) + j], nodes[i].Outbound[j], i, indexMap)
  loop 3
    invariant fresh(arr(links)) && off(links) == 0
    invariant node == nodes[i] && 0 <= i && i < len(nodes) && $k <= len(node.Outbound)
    invariant len(node.Outbound) == 0 ==> len(links) == linkPos(i) + 1
    invariant len(node.Outbound) > 0 ==> len(links) == linkPos(i) + $k
    invariant forall q int {{links[q]}} :: 0 <= q && q < len(links) ==> links[q] != nil && fresh(links[q])
    invariant forall q int {{nodes[q]}} :: 0 <= q && q < len(nodes) ==> nodes[q] in dom(indexMap) && indexMap[nodes[q]] == q
    invariant [before] forall b int, j int {{linkPos(b), nodes[b].Outbound[j]}} :: 0 <= b && b < i && 0 <= j && j < len(nodes[b].Outbound) ==> linkOk(links[linkPos(b) + j], nodes[b].Outbound[j], b, indexMap)
    invariant [ends] forall j int {{node.Outbound[j]}} :: 0 <= j && j < $k ==> linkOk(links[linkPos(i) + j], node.Outbound[j], i, indexMap)
  // what is written: the nodes in their order, and for each node its links in their order
  oncall writeNodeJsonsToFile [states] len(nodeJsons) == len(nodes) && forall q int {{nodeJsons[q]}} :: 0 <= q && q < len(nodes) ==> nodeJsons[q] == jsonOf(nodes[q])
  oncall writeProtoMsgToFile [ends] typeis(message, *proto.Links) && links(message).TotalNodes == len(nodes) && len(links(message).Links) == linkPos(len(nodes))
  oncall writeProtoMsgToFile [to] forall i int, j int, d int {{linkPos(i), nodes[i].Outbound[j], nodes[d]}} :: 0 <= i && i < len(nodes) && 0 <= j && j < len(nodes[i].Outbound) && 0 <= d && d < len(nodes) && nodes[i].Outbound[j].Node == nodes[d] ==> links(message).Links[linkPos(i) + j].Dest == d
  oncall writeProtoMsgToFile [data] forall i int, j int {{linkPos(i), nodes[i].Outbound[j]}} :: 0 <= i && i < len(nodes) && 0 <= j && j < len(nodes[i].Outbound) ==> links(message).Links[linkPos(i) + j] != nil && links(message).Links[linkPos(i) + j].Src == i && links(message).Links[linkPos(i) + j].ReqId == nodes[i].Outbound[j].ReqId && links(message).Links[linkPos(i) + j].Labels == nodes[i].Outbound[j].Labels && links(message).Links[linkPos(i) + j].Messages == nodes[i].Outbound[j].Messages && links(message).Links[linkPos(i) + j].Type == nodes[i].Outbound[j].Type
